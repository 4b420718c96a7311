import contextlib
import io
import warnings
import numpy as np
from core import Sub
import gen
import geo

PROPERTY = 'F01'
RULE = ('Hypothesis draws rooms at any position, layouts of stationary rectangles and circles, moving obstacles, grids, vehicle '
        'sizes, start and goal, number of frames, frame type and options; the corridors of a scheduler are followed from start '
        'to goal as the vehicle would (moving along the way points, switching when the scheduler says so) and each corridor is '
        'compared with the obstacle boxes. Non-trivial: an obstacle limits the corridor, or an obstacle enters a corridor while '
        'it moves.')


def _m():
    from importlib import import_module as im
    return [im('omgtools.' + n) for n in ('problems.globalplanner', 'problems.schedulerproblem', 'environment.frame', 'environment.obstacle',
                                          'environment.environment', 'basics.shape', 'vehicles.holonomic', 'vehicles.dubins')]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ---------------------------------------------------------------- layouts
def g_layout(st, moving=False):
    @st.composite
    def s(draw):
        w = gen.pick(draw, st, [6., 10., 20., 3.])
        h = gen.pick(draw, st, [6., 10., 12., 3.])
        nx = draw(st.integers(3, 10))
        ny = draw(st.integers(3, 10))
        cell = min(w/nx, h/ny)
        veh = cell*gen.pick(draw, st, [0.44, 0.3, 0.2, 0.1])
        obs = []
        u = gen.num(st, -0.5, 0.5, 1000)
        for _ in range(draw(st.integers(0, 7))):
            kind = gen.pick(draw, st, ['wall', 'wall', 'box', 'circle', 'cell'])
            o = {'k': kind, 'p': [draw(u), draw(u)]}
            if kind == 'wall':
                a = gen.pick(draw, st, [0.3, 0.5, 0.7])
                b = gen.pick(draw, st, [0.02, 0.08])
                o['wh'] = [a*w, b*h] if draw(st.booleans()) else [b*w, a*h]
            elif kind == 'box':
                o['wh'] = [w*gen.pick(draw, st, [0.1, 0.2, 0.35]), h*gen.pick(draw, st, [0.1, 0.2, 0.35])]
            elif kind == 'circle':
                o['r'] = min(w, h)*gen.pick(draw, st, [0.04, 0.1, 0.16])
            else:
                o['wh'] = [w/nx, h/ny]
                o['c'] = [draw(st.integers(0, nx-1)), draw(st.integers(0, ny-1))]
            o['still'] = gen.pick(draw, st, [None, None, 'zero', 'pos'])
            obs.append(o)
        ends = [[draw(u), draw(u)], [draw(u), draw(u)]]
        if gen.pick(draw, st, [0, 1, 1]):
            # slalom: walls from alternating sides, start and goal at opposite ends
            m = draw(st.integers(1, 3))
            for k in range(m):
                x = -0.5 + (k+1.)/(m+1) + 0.02*draw(st.integers(-3, 3))
                length = gen.pick(draw, st, [0.5, 0.65, 0.3])
                side = 1 if k % 2 else -1
                obs.append({'k': 'wall', 'p': [x, side*(0.5 - length/2.)], 'wh': [w*gen.pick(draw, st, [0.02, 0.08]), h*length], 'still': None})
            e = gen.num(st, 0.38, 0.49, 1000)
            ends = [[-draw(e), ends[0][1]], [draw(e), ends[1][1]]]
            if draw(st.booleans()):
                ends = ends[::-1]
            obs = obs[-(m+gen.pick(draw, st, [0, 1, 2])):]
        c = {'wh': [w, h], 'n': [nx, ny], 'veh': veh, 'obs': obs,
             'pos': gen.pick(draw, st, [[0., 0.], [3., -2.], [-1.5, 4.25], [w/2, h/2]]),
             'a': ends[0], 'b': ends[1]}
        return c
    return s()


def place(c):
    """obstacle boxes and circles, start and goal in world coordinates"""
    w, h = c['wh']
    pos = np.array(c['pos'])
    figs = []
    for o in c['obs']:
        if o['k'] == 'cell':
            p = pos + np.array([-w/2. + (o['c'][0]+.5)*w/c['n'][0], -h/2. + (o['c'][1]+.5)*h/c['n'][1]])
        else:
            p = pos + np.array(o['p'])*[w, h]
        half = np.array([o['r'], o['r']]) if o['k'] == 'circle' else np.array(o['wh'])/2.
        figs.append({'p': p, 'half': half, 'lo': p - half, 'hi': p + half, 'o': o})
    ext = np.array([w, h]) - 2*1.15*c['veh']
    return figs, [pos + np.array(c[k])*ext for k in ('a', 'b')], np.array([pos - np.array([w, h])/2., pos + np.array([w, h])/2.])


def box_gap(lo1, hi1, lo2, hi2):
    """positive: distance between the boxes in the max norm; negative: overlap depth"""
    return float(np.max(np.maximum(np.asarray(lo2) - hi1, np.asarray(lo1) - hi2)))


def build_env(c, figs, extra=()):
    gp, sp, fr, ob, en, sh, ho, du = _m()
    w, h = c['wh']
    obs = []
    for f in figs:
        o = f['o']
        s = sh.Circle(o['r']) if o['k'] == 'circle' else sh.Rectangle(width=o['wh'][0], height=o['wh'][1])
        sim = {}
        if o['still'] == 'zero':
            sim = {'trajectories': {'velocity': {'time': [0., 3.], 'values': [[0., 0.], [0., 0.]]}}}
        elif o['still'] == 'pos':
            sim = {'trajectories': {'position': {'time': [1e6], 'values': [[0.1, 0.]]}}}
        obs.append(ob.Obstacle({'position': list(f['p'])}, shape=s, simulation=sim))
    env = en.Environment(room={'shape': sh.Rectangle(width=w, height=h), 'position': list(c['pos'])})
    allo = obs + list(extra)
    if allo:
        env.add_obstacle(allo)
    return env, obs


def make_scheduler(c, env, start, goal, veh_kind, options):
    gp, sp, fr, ob, en, sh, ho, du = _m()
    shape = sh.Circle(c['veh']) if c.get('shape', 'circle') == 'circle' else sh.Rectangle(width=c['veh'], height=c['veh']*0.7)
    if veh_kind == 'dubins':
        v = du.Dubins(shapes=shape, bounds={'vmax': 1., 'wmax': np.pi/3., 'wmin': -np.pi/3.})
        v.set_initial_conditions(list(start) + [0.3])
        v.set_terminal_conditions(list(goal) + [-0.2])
    else:
        v = ho.Holonomic(shapes=shape, options={'syslimit': gen_syslimit(c)},
                         bounds={'vmax': 1., 'vmin': -1., 'amax': 2., 'amin': -2.} if gen_syslimit(c) == 'norm_2' else
                         {'vxmax': 1., 'vymax': 1., 'vxmin': -1., 'vymin': -1., 'axmax': 2., 'axmin': -2., 'aymax': 2., 'aymin': -2.})
        v.set_initial_conditions(list(start))
        v.set_terminal_conditions(list(goal))
    planner = gp.AStarPlanner(env, list(c['n']), list(start), list(goal), options={'veh_size': [c['veh']]})
    s = sp.SchedulerProblem(v, env, planner, options=dict(options))
    s.set_options({'verbose': 0})
    return s, v


def gen_syslimit(c):
    return 'norm_2' if c.get('norm2', True) else 'norm_inf'


# ---------------------------------------------------------------- corridors
def g_corr(st):
    @st.composite
    def s(draw):
        c = draw(g_layout(st))
        c['nf'] = gen.pick(draw, st, [1, 1, 2, 2, 3])
        c['fine'] = draw(st.booleans())
        c['l'] = draw(st.booleans())
        c['dubins'] = gen.pick(draw, st, [False, False, True])
        c['norm2'] = draw(st.booleans())
        c['shape'] = gen.pick(draw, st, ['circle', 'circle', 'rect'])
        return c
    return s()


def check_frame(ctx, c, frame, figs, room, path, scale, what, l_shape, start=None):
    lim = np.array(frame.border['limits'], dtype=float)
    lo, hi = lim[:2], lim[2:]
    veh = c['veh']
    tol = 1e-6*scale
    ctx.ok(np.all(hi - lo > 0.), '%s is empty: %s', what, lim)
    ctx.close(np.concatenate([(lo+hi)/2., hi-lo]),
              np.concatenate([frame.border['position'][:2], [frame.border['shape'].width, frame.border['shape'].height]]),
              '%s: centre and size against limits %s' % (what, lim), 1e-9)
    ctx.ok(np.all(lo >= room[0] - tol) and np.all(hi <= room[1] + tol), '%s: limits %s lie outside of the room %s', what, lim, room.ravel())
    hit = False
    for f in figs:
        g = box_gap(lo, hi, f['lo'], f['hi'])
        ctx.ok(g > -tol, '%s: limits %s contain part of the obstacle with box %s %s', what, lim, f['lo'], f['hi'])
    ctx.ok(frame.stationary_obstacles == [], '%s: lists %d stationary obstacles', what, len(frame.stationary_obstacles))
    for k, wp in enumerate(frame.waypoints):
        wp = np.array(wp, dtype=float)
        if l_shape and k < len(frame.waypoints) - 1:
            continue    # cutting the corridors to an L may cut off a detour
        need = veh - tol if k == len(frame.waypoints) - 1 else -tol
        d = min(np.min(wp - lo), np.min(hi - wp))
        ctx.ok(d >= need, '%s: way point %d of %d %s is %g inside the limits %s, needs %g', what, k, len(frame.waypoints), wp, d, lim, need)
    if start is not None:
        d = min(np.min(np.array(start) - lo), np.min(hi - np.array(start)))
        ctx.ok(d >= veh - tol, '%s: the vehicle of size %g at its start %s does not fit in %s', what, veh, start, lim)
    if not l_shape:
        step = 0.1 if c['fine'] else veh*1.1
        for ax in range(2):
            for side in (0, 1):
                l2, h2 = lo.copy(), hi.copy()
                if side:
                    h2[ax] += step
                    if abs(hi[ax] - room[1][ax]) < tol:
                        continue
                else:
                    l2[ax] -= step
                    if abs(lo[ax] - room[0][ax]) < tol:
                        continue
                block = any(box_gap(l2, h2, f['lo'], f['hi']) <= tol for f in figs)
                hit = hit or block
                ctx.ok(block, '%s: limits %s could be moved %g along axis %d side %d without touching an obstacle', what, lim, step, ax, side)
    return lo, hi


def advance(ctx, case, s, figs, f, **kw):
    """make corridors; a planner path that the vehicle cannot enter from its position is outside of the domain"""
    try:
        with quiet():
            f(**kw)
    except RuntimeError as e:
        if 'No waypoint was found' not in str(e):
            raise
        starts = [s.curr_state[:2]] + [fr.waypoints[-1] for fr in s.frames]
        if getattr(s, 'next_frame', None) is not None:
            starts.append(s.next_frame.waypoints[-1])
        m = 1.1*case['veh'] + 1e-9
        for p in starts:
            p = np.array(p, dtype=float)
            d = [np.hypot(*(np.array(q) - p)) for q in s.global_path]
            for k, q in enumerate(s.global_path):
                if d[k] <= min(d) + 1e-9:
                    lo, hi = np.minimum(p, q) - m, np.maximum(p, q) + m
                    if any(box_gap(lo, hi, f['lo'], f['hi']) <= 0 for f in figs):
                        ctx.skip('global path cannot be entered')
        raise


def legs_free(ctx, case, s, figs):
    """domain: the vehicle can move along the global path leg by leg"""
    m = 1.1*case['veh'] + 1e-9
    pts = [np.array(s.curr_state[:2], dtype=float)] + [np.array(p, dtype=float) for p in s.global_path]
    k0 = int(np.argmin([np.hypot(*(p - pts[0])) for p in pts[1:]])) + 1
    pts = [pts[0]] + pts[k0:]
    for p, q in zip(pts[:-1], pts[1:]):
        lo, hi = np.minimum(p, q) - m, np.maximum(p, q) + m
        if any(box_gap(lo, hi, f['lo'], f['hi']) <= 0 for f in figs):
            ctx.skip('global path too close to an obstacle')


def run_corr(case, ctx, hook=None):
    figs, (a, b), room = place(case)
    veh = case['veh']
    clear = 1.1*veh + 1e-3
    for p in (a, b):
        for f in figs:
            if box_gap(p - clear, p + clear, f['lo'], f['hi']) <= 0:
                ctx.skip('start or goal too close to an obstacle')
    if np.all(np.abs(a - b) < 1e-6):
        ctx.skip('start is goal')
    env, obs = build_env(case, figs)
    options = {'frame_type': 'corridor', 'n_frames': case['nf'], 'scale_up_fine': case['fine'], 'l_shape': case['l'], 'freeT': True, 'verbose': 0}
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            s, v = make_scheduler(case, env, a, b, 'dubins' if case['dubins'] else 'holonomic', options)
            s.global_path = s.global_planner.get_path()
        except RuntimeError as e:
            ctx.skip('no global path')
        goal = [float(q) for q in b]
        s.global_path.append(s.goal_state[:2])
        scale = float(np.max(case['wh']))
    advance(ctx, case, s, figs, s.create_frames)
    legs_free(ctx, case, s, figs)
    step = 0
    seen = 0
    while True:
        nf = len(s.frames)
        frames = list(s.frames)
        ctx.ok(nf == s.n_frames, 'step %d: %d frames, n_frames %d', step, nf, s.n_frames)
        if s._n_frames == 1 and getattr(s, 'next_frame', None) is not None:
            frames.append(s.next_frame)
        lims = []
        for k, f in enumerate(frames):
            start = s.curr_state[:2] if (k == 0 and step == 0) else None
            lims.append(check_frame(ctx, case, f, figs, room, s.global_path, scale, 'step %d frame %d' % (step, k), case['l'], start))
        for k in range(len(frames)-1):
            lo = np.maximum(lims[k][0], lims[k+1][0])
            hi = np.minimum(lims[k][1], lims[k+1][1])
            ctx.ok(np.all(hi - lo >= 2*veh - 1e-6*scale), 'step %d: overlap %s %s of frames %d and %d is too small for the vehicle of size %g',
                   step, lo, hi, k, k+1, veh)
            seen += 1
        last = frames[-1]
        if s._n_frames > 1 and nf < s._n_frames:
            ctx.ok(list(last.waypoints[-1]) == goal, 'step %d: only %d of %d frames but the last one ends at %s, not at the goal %s', step, nf,
                   s._n_frames, last.waypoints[-1], goal)
        with quiet():
            guess, times = s.get_init_guess()
        ctx.ok(len(guess) == s.n_frames and len(times) == s.n_frames, 'step %d: %d guesses', step, len(guess))
        ctx.ok(all(t >= 0 for t in times), 'step %d: motion times %s', step, times)
        for k, g in enumerate(guess):
            ctx.ok(np.all(np.isfinite(np.array(g))), 'step %d: guess of frame %d is not finite', step, k)
        # the vehicle follows the way points of the current corridor
        f0 = s.frames[0]
        if list(s.frames[0].endpoint) == goal:
            s.curr_state = np.array(goal)
            ctx.ok(s.check_frames(), 'step %d: frame with the goal is left', step)
            break
        pts = [np.array(p, dtype=float) for p in f0.waypoints]
        switched = False
        pts = [np.array(s.curr_state[:2], dtype=float)] + pts[1:]
        for p, q in zip(pts[:-1], pts[1:]):
            for t in (0.25, 0.5, 0.75, 1.):
                s.curr_state = p + t*(q - p)
                with quiet():
                    valid = s.check_frames()
                nxt = frames[1] if len(frames) > 1 else None
                if nxt is not None:
                    l2, h2 = lims[1]
                    d = min(np.min(s.curr_state - l2), np.min(h2 - s.curr_state)) - veh
                    if not valid:
                        ctx.ok(d > -1e-6*scale, 'step %d: switched to the next corridor %s %s at %s while the vehicle does not fit in it', step, l2, h2, s.curr_state)
                    elif d > 1e-6*scale:
                        g0 = min(np.min(np.array(goal) - lims[0][0]), np.min(lims[0][1] - np.array(goal)))
                        ctx.ok(g0 > 0, 'step %d: not switched at %s though the vehicle fits in the next corridor', step, s.curr_state)
                if not valid:
                    switched = True
                    break
            if switched:
                break
        if not switched and list(s.frames[-1].endpoint) == goal:
            ctx.label('goal reached through the last of several corridors')
            break
        ctx.ok(switched, 'step %d: the vehicle reached the end %s of its corridor %s but the scheduler keeps it (goal %s)', step, s.curr_state, lims[0], goal)
        step += 1
        ctx.ok(step < 60, 'the goal is not reached after 60 corridors')
        if s.n_frames == 1 and hasattr(s, 'next_frame'):
            advance(ctx, case, s, figs, s.update_frames, next_frame=s.next_frame)
        else:
            advance(ctx, case, s, figs, s.update_frames)
        legs_free(ctx, case, s, figs)
    ctx.nontrivial(seen > 0 or bool(figs))
    ctx.label('corridors: %s' % (step + len(s.frames) if step < 3 else '> 3'))


def c_corr(case, ctx):
    run_corr(case, ctx)


# ---------------------------------------------------------------- frames of fixed size
def g_shift(st):
    @st.composite
    def s(draw):
        c = draw(g_layout(st))
        c['nf'] = gen.pick(draw, st, [1, 1, 2])
        c['size'] = gen.pick(draw, st, [None, 0.5, 0.5, 0.7, 1.5])
        c['lim'] = gen.pick(draw, st, [None, None, 0.15, 0.4])
        k = draw(st.integers(8, 16))
        c['n'] = [k, max(4, int(round(k*c['wh'][1]/c['wh'][0])))]
        c['veh'] = min(c['wh'][0]/c['n'][0], c['wh'][1]/c['n'][1])*gen.pick(draw, st, [0.44, 0.3, 0.1])
        for o in c['obs']:
            if o['k'] == 'cell':
                o['wh'] = [c['wh'][0]/c['n'][0], c['wh'][1]/c['n'][1]]
        c['dubins'] = gen.pick(draw, st, [False, False, True])
        return c
    return s()


def c_shift(case, ctx):
    figs, (a, b), room = place(case)
    veh = case['veh']
    if np.all(np.abs(a - b) < 1e-6):
        ctx.skip('start is goal')
    env, obs = build_env(case, figs)
    w, h = case['wh']
    cell = max(w/case['n'][0], h/case['n'][1])
    size = case['size']*min(w, h) if case['size'] else 0.2*w
    limit = case['lim']*size if case['lim'] else 0.25*size
    if size < 2.5*cell + 4*veh or limit < 0.5*cell:
        ctx.skip('frame is too small for the grid')
    options = {'frame_type': 'shift', 'n_frames': case['nf'], 'freeT': True, 'verbose': 0}
    if case['size']:
        options['frame_size'] = size
    if case['lim']:
        options['move_limit'] = limit
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            s, v = make_scheduler(case, env, a, b, 'dubins' if case['dubins'] else 'holonomic', options)
            s.global_path = s.global_planner.get_path()
        except RuntimeError as e:
            ctx.skip('no global path')
        goal = [float(q) for q in b]
        s.global_path.append(s.goal_state[:2])
        s.create_frames()
    scale = float(max(w, h))
    tol = 1e-6*scale
    step = 0
    while True:
        frames = list(s.frames)
        if s._n_frames == 1 and getattr(s, 'next_frame', None) is not None:
            frames.append(s.next_frame)
        for k, f in enumerate(frames):
            lim = np.array(f.border['limits'], dtype=float)
            lo, hi = lim[:2], lim[2:]
            what = 'step %d frame %d' % (step, k)
            ctx.ok(np.all(hi - lo > 0.) and np.all(hi - lo <= size + 2.2*veh + tol), '%s: limits %s, frame size %g', what, lim, size)
            if k == 0 and step == 0:
                ctx.ok(np.all(np.array(s.curr_state[:2]) > lo - tol) and np.all(np.array(s.curr_state[:2]) < hi + tol), '%s: start %s outside of limits %s', what, s.curr_state, lim)
            e = np.array(f.endpoint, dtype=float)
            d = min(np.min(e - lo), np.min(hi - e))
            ctx.ok(d >= veh - tol, '%s: end point %s is %g inside the limits %s', what, e, d, lim)
            ctx.ok(list(f.endpoint) == list(f.waypoints[-1]), '%s: end point %s is not the last way point %s', what, f.endpoint, f.waypoints[-1])
            inside = set()
            for q, o in zip(figs, obs):
                if box_gap(lo, hi, q['lo'], q['hi']) < -tol:
                    ctx.ok(any(o is x for x in f.stationary_obstacles), '%s: obstacle with box %s %s inside limits %s is not listed', what, q['lo'], q['hi'], lim)
                elif box_gap(lo, hi, q['lo'], q['hi']) > tol:
                    ctx.ok(not any(o is x for x in f.stationary_obstacles), '%s: obstacle with box %s %s outside of limits %s is listed', what, q['lo'], q['hi'], lim)
        with quiet():
            guess, times = s.get_init_guess()
        ctx.ok(len(guess) == s.n_frames and all(np.all(np.isfinite(np.array(g))) for g in guess), '%s: initial guess', step)
        if list(s.frames[0].endpoint) == goal:
            break
        if list(s.frames[-1].endpoint) == goal:
            break
        ctx.nontrivial()
        end = np.array(s.frames[0].endpoint, dtype=float)
        s.curr_state = end
        with quiet():
            valid = s.check_frames()
        ctx.ok(not valid, 'step %d: the vehicle reached the end %s of its frame but is kept in it', step, end)
        step += 1
        ctx.ok(step < 100, 'the goal is not reached after 100 frames')
        with quiet():
            if s.n_frames == 1 and hasattr(s, 'next_frame'):
                s.update_frames(next_frame=s.next_frame)
            else:
                s.update_frames()
    ctx.label('frames: %s' % (step + len(s.frames) if step < 3 else '> 3'))


# ---------------------------------------------------------------- moving obstacles
def g_movers(draw, st, n, w, h):
    out = []
    u = gen.num(st, -0.8, 0.8, 1000)
    for _ in range(n):
        k = gen.pick(draw, st, ['circle', 'rect', 'rect', 'poly', 'beam'])
        sc = min(w, h)*gen.pick(draw, st, [0.03, 0.1, 0.3, 0.8])
        vm = max(w, h)*gen.pick(draw, st, [0., 0.02, 0.1, 0.3])
        out.append({'k': k, 'sz': [sc, sc*gen.pick(draw, st, [1., 0.3, 0.1, 2.])], 'so': gen.pick(draw, st, [0., 0., 0.7, -1.2]),
                    'io': gen.pick(draw, st, [None, None, 0.5, -2.]), 'p': [draw(u), draw(u)],
                    'v': [vm*draw(gen.num(st, -1, 1)), vm*gen.pick(draw, st, [0., 1., -1., 0.4])],
                    'n': draw(st.integers(3, 6)), 'traj': draw(st.booleans())})
    return out


def build_mover(sh, ob, m, pos, wh):
    so = m['so']
    if m['k'] == 'circle':
        s, v, r = sh.Circle(m['sz'][0]), np.zeros((2, 1)), m['sz'][0]
    elif m['k'] == 'rect':
        s = sh.Rectangle(width=m['sz'][0], height=m['sz'][1], orientation=so)
        v, r = 0.5*np.array([[-1, 1, 1, -1], [-1, -1, 1, 1]])*np.array(m['sz'])[:, None], 0.
    elif m['k'] == 'beam':
        s = sh.Beam(width=m['sz'][0], height=m['sz'][1], orientation=so)
        v, r = 0.5*np.array([[-1, 1], [0, 0]])*m['sz'][0], 0.5*m['sz'][1]
    else:
        an = np.arange(m['n'])*2*np.pi/m['n'] + 0.3
        v, r = m['sz'][0]*np.array([np.cos(an), np.sin(an)]), 0.
        s = sh.Polyhedron(v.copy(), orientation=so)
    io = m['io'] if m['k'] != 'circle' else None
    p = np.array(pos) + np.array(m['p'])*wh
    ini = {'position': list(p), 'velocity': list(m['v'])}
    if io is not None:
        ini['orientation'] = io
    sim = {'trajectories': {'velocity': {'time': [0.], 'values': [list(m['v'])]}}} if m['traj'] else {}
    o = ob.Obstacle(ini, shape=s, simulation=sim)
    return o, geo.rot((so if m['k'] != 'circle' else 0.) + (io or 0.)).dot(v), r


def attribution(lo, hi, v, r, p, vel, T, ts):
    """must the obstacle be attributed, may it be"""
    box = np.array([[lo[0], hi[0], hi[0], lo[0]], [lo[1], lo[1], hi[1], hi[1]]])
    must = False
    for k in range(int(np.floor(T/ts + 1e-9)) + 1):
        w = v + (p + k*ts*vel)[:, None]
        g = geo.convex_gap(box, w) - r
        if g < -1e-6 or (g <= 0 and r == 0. and w.shape[1] > 2 and
                         (any(geo.signed_dist(q, box) < -1e-6 for q in w.T) or any(geo.signed_dist(q, w) < -1e-6 for q in box.T))):
            must = True
            break
    # bounding box over the horizon and the next samples
    n = 400
    t = np.linspace(0., T + 2.*ts, n)
    pad = np.abs(vel)*(t[1]-t[0]) + 5e-3
    l2, h2 = v.min(axis=1) - r - pad, v.max(axis=1) + r + pad
    c = p[None, :] + t[:, None]*vel[None, :]
    may = bool(np.any(np.all((c + l2 <= hi) & (c + h2 >= lo), axis=1)))
    return must, may


def g_mov(st):
    @st.composite
    def s(draw):
        w, h = gen.pick(draw, st, [10., 4.]), gen.pick(draw, st, [10., 5.])
        u = gen.num(st, -0.5, 0.5, 1000)
        return {'wh': [w, h], 'fr': [[draw(u), draw(u)], [draw(u), draw(u)]], 'mov': g_movers(draw, st, draw(st.integers(1, 5)), w, h),
                'T': gen.pick(draw, st, [0., 0.3, 1.1, 4., 10.]), 'ts': gen.pick(draw, st, [None, 0.1, 0.5, 1.]), 'pos': gen.pick(draw, st, [[0., 0.], [3., -2.]])}
    return s()


def c_mov(case, ctx):
    gp, sp, fr, ob, en, sh, ho, du = _m()
    wh = np.array(case['wh'])
    pos = np.array(case['pos'])
    built = [build_mover(sh, ob, m, pos, wh) for m in case['mov']]
    env = en.Environment(room={'shape': sh.Rectangle(width=wh[0], height=wh[1]), 'position': list(pos)})
    env.add_obstacle([b[0] for b in built])
    f = np.array(case['fr'])
    lo, hi = pos + f.min(axis=0)*wh, pos + f.max(axis=0)*wh + 0.05
    opts = {'verbose': 0}
    if case['ts']:
        opts['check_moving_obs_ts'] = case['ts']
    frame = fr.Frame(env, list(lo), [list(lo), list(hi)], 0.1, 1.1, opts)
    frame.border = frame.make_border(lo[0], lo[1], hi[0], hi[1])
    with quiet():
        got = frame.get_moving_obstacles(float(case['T']))
    ctx.ok(len(got) == len(set(map(id, got))), 'an obstacle is attributed twice')
    for m, (o, v, r) in zip(case['mov'], built):
        vel = np.array(m['v'], dtype=float)
        here = any(g is o for g in got)
        if not np.any(vel):
            ctx.ok(not here, 'obstacle %s stands still but is listed as moving', m)
            continue
        must, may = attribution(lo, hi, v, r, pos + np.array(m['p'])*wh, vel, case['T'], case['ts'] or 0.5)
        ctx.nontrivial(must)
        ctx.ok(here or not must, 'obstacle %s covers part of the frame %s %s within %g s but is not attributed to it', m, lo, hi, case['T'])
        ctx.ok(may or not here, 'obstacle %s stays away from the frame %s %s within %g s but is attributed to it', m, lo, hi, case['T'])
        if here:
            ctx.ok(o.options['avoid'], 'attributed obstacle is not avoided')


# ---------------------------------------------------------------- histories with moving obstacles
def g_hist(st):
    @st.composite
    def s(draw):
        c = draw(g_layout(st))
        c['nf'] = gen.pick(draw, st, [1, 2, 2, 3])
        c['fine'] = draw(st.booleans())
        c['l'] = draw(st.booleans())
        c['norm2'] = True
        m = draw(st.integers(1, 3))
        c['mov'] = g_movers(draw, st, m, *c['wh'])
        for q in c['mov']:
            q['so'], q['traj'] = 0., True
            q['io'] = None
            if not any(q['v']):
                q['v'] = [0.03*c['wh'][0], 0.]
        u = gen.num(st, -0.6, 0.6, 1000)
        # what happens between updates: obstacles jump to a new state, the vehicle stays or moves on
        c['ops'] = [{'jump': [[draw(st.integers(0, m-1)), [draw(u), draw(u)], gen.pick(draw, st, [1., -1., 0.5])]
                              for _ in range(gen.pick(draw, st, [0, 1, 1, 2]))],
                     'move': gen.pick(draw, st, [0, 0, 1])} for _ in range(draw(st.integers(2, 5)))]
        c['Ts'] = [gen.pick(draw, st, [0.5, 2., 6.]) for _ in range(3)]
        return c
    return s()


class StubFather(object):
    def __init__(self, prob):
        self.prob = prob

    def get_variables(self, child=None, name=None, **kw):
        if name is not None and name[0] == 'T':
            return np.array([[self.prob.Ts[int(name[1:])]]])
        n = self.prob.n_coeff

        class V(object):
            def __getitem__(self, key):
                return np.zeros((n, 2))
        return V()


class StubProblem(object):
    """stands for the local problem: records the environment it is given"""
    made = None
    Ts = None
    n_coeff = 13

    def __init__(self, vehicles, environment, n_frames=1, **kw):
        self.environment = environment
        self.n_frames = n_frames
        self.father = StubFather(self)
        self.update_times = [0.]
        self.guess = None
        self.solved = 0
        StubProblem.made.append(self)

    def set_options(self, options):
        pass

    def init(self):
        pass

    def initialize(self, current_time=0.):
        pass

    def reset_init_guess(self, guess=None):
        self.guess = guess

    def solve(self, current_time, update_time):
        self.solved += 1


def c_hist(case, ctx):
    gp, sp, fr, ob, en, sh, ho, du = _m()
    figs, (a, b), room = place(case)
    veh = case['veh']
    clear = 1.1*veh + 1e-3
    for p in (a, b):
        for f in figs:
            if box_gap(p - clear, p + clear, f['lo'], f['hi']) <= 0:
                ctx.skip('start or goal too close to an obstacle')
    if np.all(np.abs(a - b) < 1e-6):
        ctx.skip('start is goal')
    wh, pos = np.array(case['wh']), np.array(case['pos'])
    built = [build_mover(sh, ob, m, pos, wh) for m in case['mov']]
    env, obs = build_env(case, figs, [q[0] for q in built])
    options = {'frame_type': 'corridor', 'n_frames': case['nf'], 'scale_up_fine': case['fine'], 'l_shape': case['l'], 'freeT': True, 'verbose': 0}
    orig = sp.MultiFrameProblem
    StubProblem.made = []
    StubProblem.Ts = list(case['Ts'])
    sp.MultiFrameProblem = StubProblem
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                s, v = make_scheduler(case, env, a, b, 'holonomic', options)
                s.global_path = s.global_planner.get_path()
            except RuntimeError:
                ctx.skip('no global path')
        goal = [float(q) for q in b]
        s.global_path.append(s.goal_state[:2])
        legs_free(ctx, case, s, figs)
        advance(ctx, case, s, figs, s.create_frames)
        s.frames = []
        s.n_frames = case['nf']
        with quiet():
            s.global_planner.grid.draw = lambda *k, **kw: None
            s.global_planner.plot_path = lambda *k, **kw: None
            s.reinitialize()
        times = list(s.motion_times)
        v.signals = {'state': np.array(a)[:, None], 'input': np.zeros((2, 1)), 'time': np.zeros((1, 1))}
        state = [[pos + np.array(m['p'])*wh, np.array(m['v'], dtype=float)] for m in case['mov']]

        def verify(what, exact):
            """the local problem that is solved knows the obstacles of every frame"""
            prob = s.local_problem
            rooms = prob.environment.room
            ctx.ok(len(rooms) == len(s.frames) == s.n_frames, '%s: %d rooms for %d frames', what, len(rooms), len(s.frames))
            for k, f in enumerate(s.frames):
                lim = np.array(f.border['limits'])
                ctx.close(rooms[k]['position'][:2], (lim[:2]+lim[2:])/2., '%s: centre of room %d' % (what, k), 1e-9)
                ctx.close([rooms[k]['shape'].width, rooms[k]['shape'].height], lim[2:]-lim[:2], '%s: size of room %d' % (what, k), 1e-9)
                known = rooms[k].get('obstacles', [])
                for q, (o, vv, r) in enumerate(built):
                    here = any(g is o for g in known)
                    must, may = attribution(lim[:2], lim[2:], vv, r, state[q][0], state[q][1], times[k], 0.5)
                    ctx.nontrivial(must and exact)
                    ctx.ok(here or not must, '%s: moving obstacle %d (at %s, velocity %s) crosses frame %d %s within %g s, the problem does not know it',
                           what, q, state[q][0], state[q][1], k, lim, times[k])
                    ctx.ok(may or not here, '%s: moving obstacle %d (at %s, velocity %s) stays away from frame %d %s within %g s, the problem avoids it',
                           what, q, state[q][0], state[q][1], k, lim, times[k])
                    ctx.ok(not here or any(g is o for g in prob.environment.obstacles), '%s: obstacle %d missing in the environment', what, q)
        verify('start', True)
        for n, op in enumerate(case['ops']):
            for q, p, f in op['jump']:
                state[q][0] = pos + np.array(p)*wh
                state[q][1] = state[q][1]*f
                built[q][0].set_state({'position': list(state[q][0]), 'velocity': list(state[q][1])})
            if op['move']:
                end = np.array(s.frames[0].waypoints[-1], dtype=float)
                v.signals['state'] = end[:, None]
            prob = s.local_problem
            s.curr_state = v.signals['state'][:, -1]
            was = prob.solved
            try:
                with quiet():
                    legs_free(ctx, case, s, figs)
                    s.solve(0.1*(n+1), 0.1)
            except RuntimeError as e:
                if 'goal = current position' in str(e) and op['move']:
                    ctx.skip('already at the goal')
                if 'No waypoint' in str(e):
                    ctx.skip('global path cannot be entered')
                raise
            ctx.ok(s.local_problem.solved == (1 if s.local_problem is not prob else was + 1), 'update %d: the local problem is not solved', n)
            times = list(s.motion_times)
            if s.local_problem is not prob:
                ctx.label('new problem')
                ctx.ok(s.local_problem.guess is not None and len(s.local_problem.guess) == s.n_frames, 'update %d: new problem without initial guess', n)
            verify('update %d' % n, True)
    finally:
        sp.MultiFrameProblem = orig


SUBS = [
    Sub('corridors', g_corr, c_corr, quick=20000, thorough=300000, shards=8, budget=120.),
    Sub('shift', g_shift, c_shift, quick=3000, thorough=60000, shards=4, budget=100.),
    Sub('attribution', g_mov, c_mov, quick=1500, thorough=40000, shards=4, budget=100.),
    Sub('updates', g_hist, c_hist, quick=2000, thorough=40000, shards=8, budget=120.),
]
