import importlib
import io
import os
import shutil
import tempfile
from importlib import import_module as im
import numpy as np
from core import Sub
import gen
import veh

PROPERTY = 'C01'
RULE = ('Hypothesis draws a tool path (rapid moves, lines, clockwise and counter-clockwise arcs up to full circles) and writes it down as a machining '
        'program: coordinates that do not change may be left out, lines get numbers, feed, spindle and mode words, comments (with words inside that '
        'look like coordinates), blank lines and spaces; also programs that call other files, and shifting and scaling. An interpreter written for '
        'the path, not for the text, is the oracle. Non-trivial: at least one arc and one omitted coordinate or comment.')


def fmt(x, style):
    s = ['%.6f', '%.6f', '%+.6f'][style % 3] % x
    if style == 1:
        s = s.rstrip('0').rstrip('.')
    return s if s not in ('-0', '') else '0'


def g_path(st, n=10, three=True):
    @st.composite
    def s(draw):
        moves = []
        for k in range(draw(st.integers(1, n))):
            t = draw(st.sampled_from(['G00', 'G01', 'G01', 'G02', 'G03', 'G02', 'G03']))
            m = {'t': t, 'hide': draw(st.booleans())}
            if t in ('G00', 'G01'):
                m['d'] = [draw(st.one_of(st.just(0.), gen.num(st, -20., 20.))), draw(st.one_of(st.just(0.), gen.num(st, -20., 20.))),
                          draw(st.one_of(st.just(0.), st.just(0.), gen.num(st, -5., 5.))) if three else 0.]
            else:
                m['r'] = draw(gen.num(st, 0.5, 15.))
                m['a'] = draw(st.sampled_from([0., 90., 180., 270., 360.])) if draw(st.booleans()) else draw(gen.num(st, 0., 360., 1))
                m['sweep'] = draw(st.sampled_from([90., 180., 270., 360.])) if draw(st.booleans()) else draw(gen.num(st, 5., 355., 1))
            m['style'] = draw(st.integers(0, 2))
            m['extra'] = draw(st.lists(st.sampled_from(['F200', 'S3000', 'E002', 'M08', 'G40', 'T1', 'F1.5e2']), max_size=2))
            m['com'] = draw(st.sampled_from(['', '', '', '(cut)', '(move to X5 Y7)', '(X 3 G02 I1)', '( Z )', '(G01 X1 Y1)']))
            m['num'] = draw(st.booleans())
            m['pad'] = draw(st.integers(0, 3))
            m['between'] = draw(st.lists(st.sampled_from(['', '   ', '(G01 X9 Y9)', '%', '%% header', 'M30', 'N900 M05', 'G90', 'G21 G17', 'N7 (G03 X1 Y1 I1)', 'T01 M06', '\t',
                                                          'N12 F300 S100', 'O1000', '( plain X4 )']), max_size=2))
            moves.append(m)
        return moves
    return s()


def interpret(moves, start=None):
    """-> list of (type, start, end, center, sweep) and the program lines; positions as a controller sees the written numbers"""
    pos = np.zeros(3) if start is None else np.array(start, dtype=float)
    out, lines = [], []
    first = start is None
    q = lambda x: np.round(x, 6)
    for k, m in enumerate(moves):
        words = [m['t']]
        if m['t'] in ('G00', 'G01'):
            end = q(pos+np.array(m['d']))
            for c in range(3):
                if end[c] != pos[c] or not m['hide']:
                    words.append('XYZ'[c]+fmt(end[c], m['style']))
            if first and m['t'] == 'G00':
                # a leading rapid move tells where the tool is
                pos = end
                blk = None
            else:
                blk = (m['t'], pos.copy(), end.copy(), None, None) if np.any(end != pos) else None
        else:
            a = np.deg2rad(m['a'])
            c = q(-m['r']*np.array([np.cos(a), np.sin(a)]))      # centre with respect to the start
            sg = -1. if m['t'] == 'G02' else 1.
            sw = np.deg2rad(m['sweep'])
            R = np.array([[np.cos(sg*sw), -np.sin(sg*sw)], [np.sin(sg*sw), np.cos(sg*sw)]])
            end = pos.copy()
            if m['sweep'] < 360.:
                end[:2] = q(pos[:2]+c-R.dot(c))
            for j in range(2):
                if end[j] != pos[j] or not m['hide']:
                    words.append('XY'[j]+fmt(end[j], m['style']))
            for j in range(2):
                if c[j] != 0. or not m['hide']:
                    words.append('IJ'[j]+fmt(c[j], m['style']))
            blk = (m['t'], pos.copy(), end.copy(), np.r_[pos[:2]+c, pos[2]], sg*sw)
        first = False
        if blk is not None:
            out.append(blk)
        pos = end
        words += m['extra']
        if m['num']:
            words.insert(0, 'N%d' % (10*(k+1)))
        if m['com']:
            words.append(m['com'])
        sep = [' ', '  ', '\t', ' '][m['pad']]
        line = ('  ' if m['pad'] == 3 else '')+sep.join(words)+(' ' if m['pad'] == 1 else '')
        lines += m['between']+[line]
    return out, lines, pos


def reader():
    mod = im('omgtools.gui.gcode_reader')
    r = mod.GCodeReader.__new__(mod.GCodeReader)      # without a window
    r.GCodes = ['G00', 'G01', 'G02', 'G03']
    r.commands, r.blocks = [], []
    return r


def same_blocks(ctx, blocks, want, tol=2e-5, what=''):
    ctx.ok(len(blocks) == len(want), '%s%d blocks for %d moves: %s', what, len(blocks), len(want), [(b.type, b.start, b.end) for b in blocks][:6])
    for k, (b, (t, p, q, c, sw)) in enumerate(zip(blocks, want)):
        w = '%sblock %d (%s) ' % (what, k, t)
        ctx.ok(b.type == t, '%shas type %s', w, b.type)
        ctx.close(b.start, p, w+'start', tol=1e-9)
        ctx.close(b.end, q, w+'end', tol=1e-9)
        ctx.close([b.X0, b.Y0, b.Z0, b.X1, b.Y1, b.Z1], np.r_[p, q], w+'coordinates', tol=1e-9)
        if k:
            ctx.close(b.start, blocks[k-1].end, w+'does not start where the previous one ended', tol=1e-9)
        if c is not None:
            ctx.close(b.center, c, w+'centre', tol=1e-9)
            r = np.linalg.norm((p-c)[:2])
            ctx.close(b.radius, r, w+'radius', tol=1e-9)
        xy = np.array(b.get_coordinates(), dtype=float)
        ctx.close(xy[0], p, w+'first point of the drawn path', tol=tol)
        ctx.close(xy[-1], q, w+'last point of the drawn path', tol=tol)
        if c is None:
            d = q-p
            u = (xy-p).dot(d)/d.dot(d)
            ctx.close(xy, p+u[:, None]*d, w+'drawn path is not on the line', tol=1e-9)
            ctx.ok(np.all(np.diff(u) > 0), '%sdrawn path goes back', w)
        else:
            rel = xy[:, :2]-c[:2]
            ctx.close(np.linalg.norm(rel, axis=1), r*np.ones(len(xy)), w+'drawn path leaves the circle', tol=tol)
            ctx.close(xy[:, 2], p[2]*np.ones(len(xy)), w+'height of the arc', tol=1e-9)
            st = np.arctan2(rel[:-1, 0]*rel[1:, 1]-rel[:-1, 1]*rel[1:, 0], np.sum(rel[:-1]*rel[1:], axis=1))
            ctx.ok(np.all(st*np.sign(sw) > 0), '%sarc is drawn in the wrong direction', w)
            ctx.close(np.sum(st), sw, w+'swept angle', tol=1e-4)
            ctx.close(np.sum(np.linalg.norm(np.diff(xy, axis=0), axis=1)), 2*r*np.sin(abs(sw)/2/(len(xy)-1))*(len(xy)-1), w+'length of the drawn path', tol=1e-4)


def text(lines, eol):
    return (eol.join(lines)+eol).encode('utf-8')


def g_prog(st):
    return st.fixed_dictionaries({'moves': g_path(st), 'eol': st.sampled_from(['\n', '\r\n']), 'second': st.one_of(st.none(), g_path(st, 3))})


def stats(ctx, moves):
    if any(m['t'] in ('G02', 'G03') for m in moves):
        ctx.label('with arcs')
        if any(m.get('sweep') == 360. for m in moves):
            ctx.label('full circle')
        if any(m['hide'] or m['com'] for m in moves):
            ctx.nontrivial()


def c_prog(case, ctx):
    want, lines, _ = interpret(case['moves'])
    r = reader()
    with veh.quiet():
        r.read(io.BytesIO(text(lines, case['eol'])))
        r.create_blocks()
    blocks = r.get_gcode()
    same_blocks(ctx, blocks, want)
    stats(ctx, case['moves'])
    # division in machining and vertical moves keeps everything in order
    if blocks:
        parts = r.get_block_division(blocks)
        flat = [b for p in parts for b in p]
        ctx.ok(len(flat) == len(blocks) and all(a is b for a, b in zip(flat, blocks)), 'dividing the program changes its blocks')
        for p in parts:
            if len(p) > 1:
                ctx.ok(all(b.start[2] == b.end[2] for b in p if b.type in ('G00', 'G01')), 'a vertical move is not separated')
    if case['second'] is not None:
        # another program in the same reader
        r.reset()
        want, lines, _ = interpret(case['second'])
        with veh.quiet():
            r.read(io.BytesIO(text(lines, case['eol'])))
            r.create_blocks()
        same_blocks(ctx, r.get_gcode(), want, what='after a reset: ')
        ctx.label('second program')


def g_files(st):
    return st.fixed_dictionaries({'subs': st.lists(g_path(st, 4), min_size=1, max_size=3), 'eol': st.sampled_from(['\n', '\r\n'])})


def c_files(case, ctx):
    """a main program that calls other files"""
    tmp = tempfile.mkdtemp(prefix='vtgc')
    try:
        os.mkdir(os.path.join(tmp, 'subfiles'))
        main, want, pos = ['%', '(main)'], [], None
        for k, moves in enumerate(case['subs']):
            w, lines, pos = interpret(moves, pos)
            want += w
            with open(os.path.join(tmp, 'subfiles', 'part%d.nc' % k), 'wb') as f:
                f.write(text(lines, case['eol']))
            main.append('N%d L part%d.nc' % (10*k+10, k))
        with open(os.path.join(tmp, 'main.nc'), 'wb') as f:
            f.write(text(main, case['eol']))
        r = reader()
        with veh.quiet():
            r.load_file(os.path.join(tmp, 'main.nc'))
            r.read()
            r.create_blocks()
        r.file.close()
        same_blocks(ctx, r.get_gcode(), want)
        for moves in case['subs']:
            stats(ctx, moves)
    finally:
        shutil.rmtree(tmp)


def g_conv(st):
    return st.fixed_dictionaries({'moves': g_path(st, 6), 'off': st.lists(gen.num(st, -9., 9.), min_size=2, max_size=2), 'scale': st.sampled_from([1., 2., 0.5, 0.1, 1.7]),
                                  'start': st.lists(gen.num(st, -9., 9.), min_size=3, max_size=3)})


def c_conv(case, ctx):
    """shifting and scaling"""
    mod = im('omgtools.gui.gcode_reader')
    moves = [{'t': 'G00', 'd': case['start'], 'hide': False, 'style': 0, 'extra': [], 'com': '', 'num': False, 'pad': 0, 'between': []}]
    moves += [dict(m, com='') for m in case['moves']]
    want, lines, _ = interpret(moves)
    tmp = tempfile.mkdtemp(prefix='vtgc')
    cwd = os.getcwd()
    had = 'input' in vars(mod)
    old = vars(mod).get('input')
    answers = iter(['maybe', 'yes', '%r,%r' % tuple(case['off']), '%r' % case['scale']])
    try:
        os.chdir(tmp)
        with open('part.nc', 'wb') as f:
            f.write(text(lines, '\n'))
        mod.input = lambda *a: next(answers)
        r = reader()
        with veh.quiet():
            r.load_file(os.path.join(tmp, 'part.nc'))
            r.convert()
            r.read()
            r.create_blocks()
        r.file.close()
    finally:
        os.chdir(cwd)
        if had:
            mod.input = old
        else:
            del mod.input
        shutil.rmtree(tmp)
    o, s = np.r_[case['off'], 0.], np.array([case['scale'], case['scale'], 1.])
    f = lambda p: None if p is None else (p-o)*s
    same = [(t, f(p), f(q), f(c), sw) for t, p, q, c, sw in want]
    blocks = r.get_gcode()
    ctx.ok(len(blocks) == len(same), '%d blocks after conversion, %d expected', len(blocks), len(same))
    for k, (b, (t, p, q, c, sw)) in enumerate(zip(blocks, same)):
        ctx.ok(b.type == t, 'converted block %d has type %s', k, b.type)
        ctx.close(b.start, p, 'start of converted block %d' % k, tol=1e-8)
        ctx.close(b.end, q, 'end of converted block %d' % k, tol=1e-8)
        if c is not None:
            ctx.close(b.center, c, 'centre of converted block %d' % k, tol=1e-8)
    stats(ctx, moves)


SUBS = [Sub('program', g_prog, c_prog, quick=6000, thorough=30000, shards=4),
        Sub('files', g_files, c_files, quick=800, thorough=4000, shards=2),
        Sub('convert', g_conv, c_conv, quick=800, thorough=4000, shards=2)]
