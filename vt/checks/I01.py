import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import warnings
from importlib import import_module as im
import numpy as np
from core import Sub
import gen

PROPERTY = 'I01'
RULE = ('Hypothesis draws svg documents (rectangles, circles, lines and polylines at the root or in one or two groups with translations, in several '
        'notations), reads one after the other with one reader, and compares the obstacles with the figures that were drawn; documents of connected lines '
        'and circular arcs are converted to GCode and the commands are traced; and sequences of user actions (loading drawings and saved environments, '
        'clicking, placing, selecting, moving, removing) are applied to the window, with the widgets replaced by stand-ins, and compared with a model of '
        'what was clicked. Non-trivial: a translation, a line drawn right to left or upwards, an arc, or an action that changes an obstacle.')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


@contextlib.contextmanager
def scratch():
    """the code writes files in the current folder"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='vt_i01_')
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- drawings
def g_drawing(st):
    @st.composite
    def s(draw):
        w, h = gen.pick(draw, st, [[640., 480.], [300., 900.], [127.5, 80.25], [1000., 1000.]])
        u = gen.num(st, 0., 1., 1000)
        el = []
        for _ in range(draw(st.integers(0, 6))):
            k = gen.pick(draw, st, ['rect', 'rect', 'circle', 'line', 'polyline'])
            e = {'k': k, 'p': [round(draw(u)*w, 3), round(draw(u)*h, 3)]}
            if k == 'rect':
                e['wh'] = [round((.01 + .3*draw(u))*w, 3), round((.01 + .3*draw(u))*h, 3)]
            elif k == 'circle':
                e['r'] = round((.01 + .2*draw(u))*min(w, h), 3)
            else:
                n = 1 if k == 'line' else draw(st.integers(1, 4))
                legs = []
                for _ in range(n):
                    legs.append([draw(st.booleans()), gen.pick(draw, st, [-1., 1.])*round((.02 + .4*draw(u))*min(w, h), 3)])
                e['legs'] = legs
                e['sw'] = gen.pick(draw, st, [1., 2.5, 10., .75])
                e['style'] = draw(st.booleans())
                e['pad'] = draw(st.booleans())
            el.append(e)
        tr = []
        depth = gen.pick(draw, st, [0, 0, 1, 1, 1, 2, 2])
        t = gen.num(st, -200., 200., 1000)
        for _ in range(depth):
            form = gen.pick(draw, st, [None, ',', ', ', ' ', 'one', ','])
            tr.append([form, draw(t), 0. if form == 'one' else draw(t)])
        return {'page': [w, h], 'unit': gen.pick(draw, st, ['', '', 'px', 'mm']), 'el': el, 'tr': tr, 'junk': draw(st.booleans())}
    return s()


def num(x):
    return ('%.6f' % x).rstrip('0').rstrip('.') if x == int(x) else repr(float(x))


def write_svg(c):
    w, h = c['page']
    size = {'': (w, h, ''), 'px': (w, h, 'px'), 'mm': (w/4., h/4., 'mm')}[c['unit']]
    out = ['<?xml version="1.0" encoding="utf-8"?>',
           '<svg xmlns="http://www.w3.org/2000/svg" version="1.1" width="%s%s" height="%s%s" viewBox="0 0 %s %s">'
           % (num(size[0]), size[2], num(size[1]), size[2], num(w), num(h))]
    if c['junk']:
        out.append('<title>a drawing</title><defs/>')
    for form, a, b in c['tr']:
        if form is None:
            out.append('<g id="layer">')
        elif form == 'one':
            out.append('<g transform="translate(%s)">' % num(a))
        else:
            out.append('<g transform="translate(%s%s%s)">' % (num(a), form, num(b)))
    for e in c['el']:
        x, y = e['p']
        if e['k'] == 'rect':
            out.append('<rect x="%s" y="%s" width="%s" height="%s" fill="#333333"/>' % (num(x), num(y), num(e['wh'][0]), num(e['wh'][1])))
        elif e['k'] == 'circle':
            out.append('<circle cx="%s" cy="%s" r="%s"/>' % (num(x), num(y), num(e['r'])))
        else:
            pts = polyline_points(e)
            stroke = ('style="fill:none;stroke:#333;stroke-width:%s;stroke-opacity:1"' if e['style'] else 'fill="none" stroke-width="%s"') % num(e['sw'])
            if e['k'] == 'line':
                (x1, y1), (x2, y2) = pts
                out.append('<line %s x1="%s" y1="%s" x2="%s" y2="%s"/>' % (stroke, num(x1), num(y1), num(x2), num(y2)))
            else:
                out.append('<polyline %s points="%s%s"/>' % (stroke, ' '.join('%s,%s' % (num(a), num(b)) for a, b in pts), ' ' if e['pad'] else ''))
    out += ['</g>']*len(c['tr']) + ['</svg>']
    return '\n'.join(out)


def polyline_points(e):
    pts = [list(e['p'])]
    for hor, d in e['legs']:
        p = list(pts[-1])
        p[0 if hor else 1] += d
        pts.append(p)
    return pts


def figures(c):
    """what is drawn: centre and size in the coordinates of the page"""
    t = np.sum([[a, b] for f, a, b in c['tr'] if f is not None], axis=0) if any(f is not None for f, a, b in c['tr']) else np.zeros(2)
    out = []
    for e in c['el']:
        p = np.array(e['p'])
        if e['k'] == 'rect':
            out.append(('rectangle', p + np.array(e['wh'])/2. + t, list(e['wh'])))
        elif e['k'] == 'circle':
            out.append(('circle', p + t, [e['r']]))
        else:
            pts = polyline_points(e)
            for a, b in zip(pts[:-1], pts[1:]):
                a, b = np.array(a), np.array(b)
                d = np.abs(b - a)
                out.append(('rectangle', (a + b)/2. + t, [e['sw'], d[1]] if d[0] == 0 else [d[0], e['sw']]))
    return out


def match(ctx, got, want, tol, what):
    """same figures in any order"""
    ctx.ok(len(got) == len(want), '%s: %d obstacles for %d figures: %s against %s', what, len(got), len(want), got, want)
    left = list(got)
    for k, p, s in want:
        best = [i for i, g in enumerate(left) if g[0] == k and len(g[2]) == len(s) and np.all(np.abs(np.array(g[1], dtype=float) - p) < tol)
                and np.all(np.abs(np.array(g[2], dtype=float) - s) < tol)]
        ctx.ok(best, '%s: no obstacle for the %s at %s of size %s; obstacles: %s', what, k, p, s, left)
        left.pop(best[0])


def as_figures(obstacles):
    out = []
    for o in obstacles:
        out.append((o['shape'], o['pos'], [o['width'], o['height']] if o['shape'] == 'rectangle' else [o['radius']]))
    return out


def g_svg(st):
    @st.composite
    def s(draw):
        return {'docs': [draw(g_drawing(st)) for _ in range(gen.pick(draw, st, [1, 2, 2]))]}
    return s()


def c_svg(case, ctx):
    svg = im('omgtools.gui.svg_reader')
    reader = svg.SVGReader()
    with scratch():
        for k, c in enumerate(case['docs']):
            with quiet():
                reader.init(io.BytesIO(write_svg(c).encode()))
                reader.build_environment()
            match(ctx, as_figures(reader.obstacles), figures(c), 1e-6, 'drawing %d' % k)
            ctx.close([reader.width_px, reader.height_px], c['page'], 'drawing %d: page size' % k, 1e-9)
            ctx.nontrivial(bool(c['el']) and (bool(c['tr']) or any('legs' in e for e in c['el'])))
            ctx.label('depth %d' % len(c['tr']))


# ---------------------------------------------------------------- conversion to GCode
def g_gcode(st):
    @st.composite
    def s(draw):
        el = []
        n = draw(st.integers(1, 6))
        for k in range(n):
            if k == 0 or gen.pick(draw, st, [0, 1, 1]) == 0:
                el.append({'k': 'line', 'd': [draw(gen.num(st, -50, 50, 1000)), draw(gen.num(st, -50, 50, 1000))]})
            else:
                el.append({'k': 'arc', 'r': gen.pick(draw, st, [5., 20., 3.25, 60.]), 'a': draw(st.integers(0, 359)), 'sweep': gen.pick(draw, st, [1, -1])*draw(st.integers(20, 300)),
                           'n': draw(st.integers(2, 4)), 'back': draw(st.booleans()), 'sep': gen.pick(draw, st, [',', ' ', ', ']), 'fmt': draw(st.booleans())})
        return {'p': [draw(gen.num(st, 0, 200, 1000)), draw(gen.num(st, 0, 200, 1000))], 'el': el}
    return s()


def arc_points(c, r, a0, a1, n):
    """cubic Bezier pieces of the arc around c from angle a0 to a1"""
    out = []
    for k in range(n):
        b0, b1 = a0 + (a1 - a0)*k/n, a0 + (a1 - a0)*(k+1.)/n
        q = 4./3.*np.tan((b1 - b0)/4.)*r
        e = lambda b: np.array([np.cos(b), np.sin(b)])
        d = lambda b: np.array([-np.sin(b), np.cos(b)])
        out.append([c + r*e(b0) + q*d(b0), c + r*e(b1) - q*d(b1), c + r*e(b1)])
    return out


def c_gcode(case, ctx):
    svg = im('omgtools.gui.svg_reader')
    p = np.array(case['p'])
    body, trace = [], []
    for e in case['el']:
        if e['k'] == 'line':
            q = p + np.array(e['d'])
            body.append('<line fill="none" stroke="#333333" x1="%.4f" y1="%.4f" x2="%.4f" y2="%.4f"/>' % (p[0], p[1], q[0], q[1]))
            trace.append(('line', q))
        else:
            a0 = np.radians(e['a'])
            a1 = a0 + np.radians(e['sweep'])
            c = p - e['r']*np.array([np.cos(a0), np.sin(a0)])
            n = max(e['n'], int(np.ceil(abs(e['sweep'])/90.)))
            b0, b1 = (a1, a0) if e['back'] else (a0, a1)
            pts = arc_points(c, e['r'], b0, b1, n)
            at = c + e['r']*np.array([np.cos(b0), np.sin(b0)])
            d = 'M%.4f%s%.4f' % (at[0], e['sep'], at[1])
            at = np.round(at, 4)
            for tri in pts:
                rel = np.round([t - at for t in tri], 4)
                d += 'c' + ' '.join('%.4f%s%.4f' % (x, ',' if e['fmt'] else ' ', y) for x, y in rel)
                at = at + rel[2]
            body.append('<path fill="none" d="%s"/>' % d)
            q = c + e['r']*np.array([np.cos(a1), np.sin(a1)])
            trace.append(('arc', q, c, e['sweep'] > 0, e['r']))
        p = q
    text = '<svg xmlns="http://www.w3.org/2000/svg" width="400" height="400">%s</svg>' % '\n'.join(body)
    if any(np.hypot(*(np.array(t[1]) - a)) < 1e-2 for t, a in zip(trace, [np.array(case['p'])] + [t[1] for t in trace[:-1]])):
        ctx.skip('segment without length')
    with scratch():
        with open('draw.svg', 'w') as f:
            f.write(text)
        reader = svg.SVGReader()
        with quiet(), open('draw.svg', 'rb') as f:
            reader.init(f)
            reader.compute_transform()
            reader.get_gcode_description()
        ctx.ok(sorted(os.listdir('.')) == ['draw.svg', 'draw_gcode.nc'], 'files: %s', os.listdir('.'))
        with open('draw_gcode.nc') as f:
            lines = [l.split() for l in f.read().splitlines() if l.strip()]
    ctx.ok(len(lines) == len(trace) + 1, '%d commands for %d segments: %s', len(lines), len(trace), lines)
    words = [dict((w[0], float(w[1:])) for w in l[1:]) for l in lines]
    flip = np.array([1., -1.])
    ctx.ok(lines[0][0] == 'G00', 'first command: %s', lines[0])
    pos = np.array([words[0]['X'], words[0]['Y']])
    ctx.ok(np.all(np.abs(pos - flip*case['p']) < 2e-3), 'start %s, drawn at %s (y downwards)', pos, case['p'])
    for k, (t, l, w) in enumerate(zip(trace, lines[1:], words[1:])):
        end = np.array([w['X'], w['Y']])
        ctx.ok(np.all(np.abs(end - flip*t[1]) < 3e-3), 'segment %d %s ends at %s, drawn to %s (y downwards)', k, l, end, t[1])
        if t[0] == 'line':
            ctx.ok(l[0] == 'G01', 'segment %d is a line: %s', k, l)
        else:
            c = flip*t[2]
            got = pos + [w['I'], w['J']]
            # the points are rounded: the centre of a short arc is less precise
            ctx.ok(np.all(np.abs(got - c) < 0.02 + 0.01*t[4]), 'segment %d %s turns around %s, drawn around %s (y downwards)', k, l, got, t[2])
            want = 'G02' if t[3] else 'G03'       # increasing angles turn clockwise when y points downwards
            ctx.ok(l[0] == want, 'segment %d %s is drawn the other way around', k, l)
            ctx.nontrivial()
        pos = end


# ---------------------------------------------------------------- the window
class Widget(object):
    def __init__(self, *a, **kw):
        self.conf = {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: None

    def __setitem__(self, k, v):
        self.conf[k] = v

    def __getitem__(self, k):
        return self.conf.get(k)


class Var(Widget):
    def __init__(self, *a, **kw):
        self.v = kw.get('value', '')

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Canvas(Widget):
    def __init__(self, *a, **kw):
        self.items = {}
        self.n = 0
        self.scroll = [0., 0.]

    def _add(self, kind, coords, tags):
        self.n += 1
        self.items[self.n] = (kind, list(coords), tags)
        return self.n

    def create_rectangle(self, x1, y1, x2, y2, tags=None, **kw):
        return self._add('rectangle', (x1, y1, x2, y2), tags)

    def create_circle(self, x, y, r, tags=None, **kw):
        return self._add('circle', (x-r, y-r, x+r, y+r), tags)

    create_oval = lambda self, a, b, c, d, tags=None, **kw: self._add('circle', (a, b, c, d), tags)

    def delete(self, what):
        if what == 'all':
            self.items = {}
        else:
            self.items.pop(what, None)

    def coords(self, i, *new):
        if not new:
            return list(self.items[i][1])
        self.items[i] = (self.items[i][0], list(new), self.items[i][2])

    def find_all(self):
        return tuple(sorted(self.items))

    def canvasx(self, x):
        return x + self.scroll[0]

    def canvasy(self, y):
        return y + self.scroll[1]


class FakeTk(object):
    Canvas = Canvas
    StringVar = DoubleVar = BooleanVar = IntVar = Var
    Frame = Widget
    HORIZONTAL = VERTICAL = 'x'

    def __getattr__(self, name):
        return Widget


class Event(object):
    def __init__(self, x, y):
        self.x, self.y = x, y


def g_gui(st):
    @st.composite
    def s(draw):
        u = gen.num(st, 0.02, 0.98, 1000)
        ops = []
        for _ in range(draw(st.integers(2, 12))):
            k = gen.pick(draw, st, ['rect', 'rect', 'circle', 'circle', 'select', 'select', 'move', 'move', 'remove', 'click', 'svg', 'save', 'load', 'scroll'])
            o = {'k': k}
            if k in ('rect', 'circle', 'click'):
                o['p'] = [draw(u), draw(u)]
            if k in ('rect', 'circle'):
                o['s'] = [gen.pick(draw, st, [0.1, 0.05, 0.3]), gen.pick(draw, st, [0.1, 0.04, 0.2])]
                o['v'] = [gen.pick(draw, st, [0., 0.2]), gen.pick(draw, st, [0., -0.3])]
                o['b'] = draw(st.booleans())
            if k == 'select':
                o['i'] = draw(st.integers(0, 5))
                o['d'] = [gen.pick(draw, st, [0., 0., 0.3, 1.2]), gen.pick(draw, st, [0., 0., -0.3, 1.2])]
            if k == 'move':
                o['d'] = gen.pick(draw, st, ['up', 'down', 'left', 'right'])
            if k == 'svg':
                o['doc'] = draw(g_drawing(st))
                o['m2p'] = gen.pick(draw, st, [10, 50, 37])
                o['n'] = [draw(st.integers(3, 40)), draw(st.integers(3, 40))]
            if k == 'scroll':
                o['s'] = [float(draw(st.integers(0, 60))), float(draw(st.integers(0, 60)))]
            ops.append(o)
        out = gen.pick(draw, st, [0, 0, 0, 1])
        return {'w': gen.pick(draw, st, [8., 5., 12.4]), 'h': gen.pick(draw, st, [8., 6., 3.7]), 'm2p': gen.pick(draw, st, [50, 20, 33]),
                'pos': gen.pick(draw, st, [[0., 0.], [0., 0.], [-2., 1.5], [3., -4.]]), 'n': [draw(st.integers(4, 30)), draw(st.integers(4, 30))],
                'ops': ops, 'ends': [[draw(u), draw(u)], [draw(u) + (1. if out else 0.), draw(u)]], 'margin': gen.pick(draw, st, [None, 0.3])}
    return s()


class Model(object):
    """what the user did, in metres with y upwards"""
    def __init__(self, w, h, m2p, pos, n):
        self.frame(w, h, m2p, pos, n)
        self.obs, self.clicks, self.sel, self.saved = [], [], None, None

    def frame(self, w, h, m2p, pos, n):
        self.w, self.h, self.m2p, self.pos, self.n = w, h, float(m2p), np.array(pos, dtype=float), list(n)
        self.px = [int(w*m2p), int(h*m2p)]
        self.cell = [int(np.ceil(float(self.px[i])/n[i])) for i in range(2)]

    def world(self, p):
        return self.pos + [p[0]/self.m2p, (self.px[1] - p[1])/self.m2p]

    def canvas(self, q):
        d = (np.array(q) - self.pos)*self.m2p
        return np.array([d[0], self.px[1] - d[1]])

    def snap(self, p):
        return [self.cell[i]*np.floor(p[i]/float(self.cell[i]) + .5) for i in range(2)]


def inside(o, q):
    """signed slack: positive inside"""
    d = np.abs(np.array(q) - o['p'])
    return o['s'][0] - np.hypot(*d) if o['k'] == 'circle' else float(np.min(np.array(o['s'])/2. - d))


def c_gui(case, ctx):
    gui = im('omgtools.gui.gui')
    keep = (gui.tk, gui.tkfiledialog, gui.tkmessagebox, gui.popupWindow, sys.argv)
    answers = []

    class Popup(object):
        def __init__(self, master, text):
            self.top = None
            t = text.lower()
            self.value = answers[0 if 'gcode' in t else 1 if 'pixels' in t else 2]

    class Dialog(object):
        name = None

        def askopenfilename(self, **kw):
            return self.name

    dialog = Dialog()
    gui.tk, gui.tkfiledialog, gui.tkmessagebox, gui.popupWindow = FakeTk(), dialog, Widget(), Popup
    sys.argv = ['/somewhere/example.py']
    try:
        with scratch(), quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                run_gui(case, ctx, gui, dialog, answers)
            finally:
                pass
    finally:
        gui.tk, gui.tkfiledialog, gui.tkmessagebox, gui.popupWindow, sys.argv = keep


def run_gui(case, ctx, gui, dialog, answers):
    g = gui.EnvironmentGUI(Widget(), width=case['w'], height=case['h'], position=list(case['pos']),
                           options={'meter_to_pixel': case['m2p'], 'n_cells': list(case['n'])})
    g.destroy = lambda: None
    m = Model(case['w'], case['h'], case['m2p'], case['pos'], case['n'])

    def event(p):
        return Event(p[0] - g.canvas.scroll[0], p[1] - g.canvas.scroll[1])

    def pixel(f):
        return [float(int(f[0]*m.px[0])), float(int(f[1]*m.px[1]))]

    def off_tie(p):
        return all(abs(abs(p[i]/float(m.cell[i]) - np.floor(p[i]/float(m.cell[i]))) - .5) > 1e-9 for i in range(2))

    def target():
        """index of the obstacle that remove and move act on"""
        return m.sel if m.sel is not None else len(m.obs) - 1

    def shown(what):
        """the list and the picture agree with the model"""
        want = [('rectangle' if o['k'] == 'rect' else 'circle', np.array(o['p']), list(o['s'])) for o in m.obs]
        match(ctx, as_figures(g.obstacles), want, 1e-6, what)
        pic = [i for i in g.canvas.items.values() if i[2] != 'rect']
        ctx.ok(len(pic) == len(m.obs), '%s: %d figures are drawn for %d obstacles', what, len(pic), len(m.obs))
        px = []
        for kind, co, t in pic:
            co = np.array(co, dtype=float)
            px.append((kind, (co[:2] + co[2:])/2., list(co[2:] - co[:2]) if kind == 'rectangle' else [(co[2] - co[0])/2.]))
        match(ctx, px, [(k, m.canvas(p), [x*m.m2p for x in s]) for k, p, s in want], 1e-4, what + ', picture')

    for n, o in enumerate(case['ops']):
        k = o['k']
        what = 'action %d (%s)' % (n, k)
        if k in ('rect', 'circle'):
            p = pixel(o['p'])
            if not off_tie(p):
                continue
            size = [min(m.w, m.h)*x for x in o['s']]
            if k == 'circle':
                size = size[:1]
                g.radius.set(size[0])
            else:
                g.width.set(size[0])
                g.height.set(size[1])
            g.shape.set('circle' if k == 'circle' else 'rectangle')
            g.vel_x.set(o['v'][0])
            g.vel_y.set(o['v'][1])
            g.bounce.set(o['b'])
            g.make_obstacle(event(p))
            m.obs.append({'k': k, 'p': m.world(m.snap(p)), 's': size, 'v': list(o['v']), 'b': o['b']})
        elif k == 'click':
            p = pixel(o['p'])
            g.get_position(event(p))
            m.clicks = (m.clicks + [m.world(p)])[-2:]
        elif k == 'select':
            if not m.obs:
                continue
            t = m.obs[o['i'] % len(m.obs)]
            ext = np.array(t['s'] if t['k'] == 'rect' else [2*t['s'][0]]*2)
            p = [float(int(x)) for x in m.canvas(t['p'] + ext/2.*o['d'])]
            if not off_tie(p):
                continue
            q = m.world(m.snap(p))
            slack = [inside(x, q) for x in m.obs]
            if min(abs(x) for x in slack) < 1e-6:
                continue
            g.shape.set('select')
            g.make_obstacle(event(p))
            hit = [i for i, x in enumerate(slack) if x > 0]
            m.sel = hit[0] if hit else None
            ctx.label('selected' if hit else 'clicked beside')
        elif k == 'move':
            if not m.obs:
                continue
            g.move_obstacle(o['d'])
            d = {'up': [0, 1], 'down': [0, -1], 'left': [-1, 0], 'right': [1, 0]}[o['d']]
            t = m.obs[target()]
            t['p'] = t['p'] + np.array(d)*m.cell/m.m2p
            ctx.nontrivial()
        elif k == 'remove':
            g.remove_obstacle()
            if m.obs:
                m.obs.pop(target())
                ctx.nontrivial()
            m.sel = None
        elif k == 'svg':
            with open('page%d.svg' % n, 'w') as f:
                f.write(write_svg(o['doc']))
            dialog.name = os.path.abspath('page%d.svg' % n)
            answers[:] = ['no', str(o['m2p']), '%d, %d' % tuple(o['n'])]
            g.load_svg()
            pw, ph = [int(x) for x in o['doc']['page']]
            m.frame(pw/float(o['m2p']), ph/float(o['m2p']), o['m2p'], [0., 0.], o['n'])
            m.px = [pw, ph]
            m.cell = [int(np.ceil(float(m.px[i])/o['n'][i])) for i in range(2)]
            m.obs = [{'k': 'rect' if t == 'rectangle' else 'circle', 'p': m.world(p), 's': [x/m.m2p for x in s], 'v': [0, 0], 'b': False}
                     for t, p, s in figures(o['doc'])]
            order = as_figures(g.obstacles)
            # the reader may list the figures in any order: take over its order
            match(ctx, order, [('rectangle' if x['k'] == 'rect' else 'circle', x['p'], x['s']) for x in m.obs], 1e-6, what)
            new = []
            for t, p, s in order:
                j = [i for i, x in enumerate(m.obs) if np.all(np.abs(x['p'] - p) < 1e-6) and len(x['s']) == len(s) and np.all(np.abs(np.array(x['s']) - s) < 1e-6)][0]
                new.append(m.obs.pop(j))
            m.obs = new
            m.sel = None
            ctx.nontrivial(bool(new))
            ctx.close([g.frame_width_m, g.frame_height_m], [m.w, m.h], what + ': size', 1e-9)
        elif k == 'save':
            g.save_environment()
            ctx.ok(os.path.exists('example.pickle'), '%s: no file example.pickle', what)
            m.saved = ([dict(x) for x in m.obs], [np.array(x) for x in m.clicks], (m.w, m.h, m.m2p, list(m.pos), list(m.n), list(m.px), list(m.cell)))
        elif k == 'load':
            if m.saved is None:
                continue
            dialog.name = os.path.abspath('example.pickle')
            g.load_environment()
            m.obs, m.clicks = [dict(x) for x in m.saved[0]], [np.array(x) for x in m.saved[1]]
            w, h, m2p, pos, nn, px, cell = m.saved[2]
            m.frame(w, h, m2p, pos, nn)
            m.px, m.cell = list(px), list(cell)
            m.sel = None
            ctx.nontrivial(bool(m.obs))
        elif k == 'scroll':
            g.canvas.scroll = list(o['s'])
        ctx.label(k)
        shown(what)
    for f in case['ends']:
        p = pixel(f)
        g.get_position(event(p))
        m.clicks = (m.clicks + [m.world(p)])[-2:]
    g.build_environment()
    env = g.get_environment()
    lo, hi = m.pos, m.pos + [m.w, m.h]
    ctx.ok(len(env.room) == 1, '%d rooms', len(env.room))
    ctx.close(env.room[0]['position'][:2], (lo + hi)/2., 'centre of the room', 1e-9)
    ctx.close([env.room[0]['shape'].width, env.room[0]['shape'].height], [m.w, m.h], 'size of the room', 1e-9)
    got = []
    for o in env.obstacles:
        s = o.shape
        kind = type(s).__name__.lower()
        vel = o.simulation.get('trajectories', {}).get('velocity', {}).get('values', [[0., 0.]])[0]
        got.append((kind, list(np.array(o.signals['position'])[:, -1]) + list(vel) + [float(bool(o.options['bounce']))], [s.width, s.height] if kind == 'rectangle' else [s.radius]))
    match(ctx, got, [('rectangle' if o['k'] == 'rect' else 'circle', np.concatenate([o['p'], o['v'], [float(o['b'])]]), o['s']) for o in m.obs], 1e-6, 'environment')
    pts = g.get_clicked_positions(case['margin']) if case['margin'] is not None else g.get_clicked_positions()
    ctx.ok(len(pts) == 2, '%d clicked positions', len(pts))
    for p, q in zip(pts, m.clicks):
        q = np.array(q)
        if case['margin'] is None or (np.all(q > lo + 1e-9) and np.all(q < hi - 1e-9)):
            ctx.close(p, q, 'clicked position', 1e-9)
        else:
            ctx.ok(np.all(np.array(p) >= lo) and np.all(np.array(p) <= hi), 'clicked position %s is moved to %s, outside of the room %s %s', q, p, lo, hi)
            ctx.label('click outside')


SUBS = [
    Sub('svg', g_svg, c_svg, quick=2500, thorough=60000, shards=4, budget=60.),
    Sub('gcode', g_gcode, c_gcode, quick=2500, thorough=60000, shards=4, budget=60.),
    Sub('gui', g_gui, c_gui, quick=2500, thorough=60000, shards=8, budget=90.),
]
