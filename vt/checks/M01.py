import numpy as np
from core import Sub
import ref
import gen

PROPERTY = 'M01'
RULE = ('Hypothesis draws trees of 1-4 components with variables, spline variables, parameters and symbols of random '
        'shapes (names reused between components, shared symbols between components), constraints and objective terms '
        'that are random polynomials of their own and shared quantities, and histories of writes, reads, bound updates '
        'and resets; the assembled program is evaluated and compared with a direct numpy evaluation of the '
        'declarations. Non-trivial: at least two components and a shared symbol.')


def _o():
    from omgtools.basics.optilayer import OptiFather, OptiChild
    from omgtools.basics.spline import BSplineBasis, BSpline
    return OptiFather, OptiChild, BSplineBasis, BSpline


def g_term(st, names):
    """coefficient times a product of at most two references"""
    r = st.tuples(st.sampled_from(names), st.integers(0, 50))
    return st.tuples(gen.num(st, -3., 3., 10), st.lists(r, min_size=0, max_size=2))


def g_children(st):
    @st.composite
    def s(draw):
        nc = draw(st.integers(1, 4))
        children = []
        shared = []     # (name, owner, rows, cols, kind)
        for c in range(nc):
            ch = {'label': draw(st.sampled_from(['veh', 'veh', 'obs0', 'p2p', 'env3', 'a1b'])), 'vars': [], 'pars': [], 'spl': []}
            for nm in draw(st.sets(st.sampled_from(['x', 'y', 'xx', 'x0', 'z_1']), max_size=3)):
                ch['vars'].append([nm, draw(st.integers(1, 3)), draw(st.integers(1, 3))])
            for nm in draw(st.sets(st.sampled_from(['p', 'q', 'px']), max_size=2)):
                ch['pars'].append([nm, draw(st.integers(1, 3)), draw(st.integers(1, 2))])
            for nm in draw(st.sets(st.sampled_from(['splines_seg0', 'splines_seg1', 'hyp', 'eps_seg1']), max_size=2)):
                ch['spl'].append([nm, draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.integers(1, 3)),
                                  draw(st.sampled_from(['var', 'var', 'par']))])
            if c == 0 and not ch['vars']:
                ch['vars'].append(['x', draw(st.integers(1, 3)), draw(st.integers(1, 2))])
            if draw(st.booleans()):
                k = draw(st.sampled_from(['vars', 'pars']))
                d = ['sh%d' % c, draw(st.integers(1, 3)), draw(st.integers(1, 2))]
                ch[k].append(d)
                shared.append([d[0], c] + d[1:])
            children.append(ch)
        for c, ch in enumerate(children):
            cand = [x for x in shared if x[1] != c]
            ch['sym'] = [x[0] for x in cand if draw(st.booleans())]
            names = [v[0] for v in ch['vars'] + ch['pars']] + ch['sym']
            ch['con'], ch['obj'] = [], []
            if names:
                for _ in range(draw(st.integers(1 if c == 0 else 0, 3))):
                    lo, hi = sorted([draw(gen.num(st)), draw(gen.num(st))])
                    ch['con'].append({'rows': [draw(st.lists(g_term(st, names), min_size=1, max_size=3)) for _ in
                                               range(draw(st.integers(1, 2)))], 'lb': lo, 'ub': hi,
                                      'shut': draw(st.sampled_from([None, None, None, 't > 2.', 't <= 0.5', 'not (t == 1.)'])),
                                      'name': draw(st.sampled_from([None, None, 'lim']))})
                ch['obj'] = draw(st.lists(g_term(st, names), max_size=3))
            ch['scon'] = []
            for i, sp in enumerate(ch['spl']):
                if draw(st.booleans()):
                    N = sp[1] + sp[2]
                    sk = draw(st.sampled_from([None, None, [1, 0], [0, 1], [1, 1], [0, 2], [2, 0], [0, 0]]))
                    if sk is not None and sum(sk) >= N:
                        sk = None
                    ch['scon'].append({'i': i, 'k': draw(st.integers(0, sp[3]-1)), 'a': draw(gen.num(st, -3., 3.)),
                                       'b': draw(gen.num(st, -3., 3.)), 'lb': -1.5, 'ub': draw(gen.num(st, 0., 5.)), 'skip': sk})
        ops = draw(st.lists(st.tuples(st.sampled_from(['setall', 'setone', 'setpar', 'defval', 'init', 'bounds', 'recompose']),
                                      st.integers(0, 40), st.integers(0, 999)), max_size=6))
        return {'ch': children, 'ops': [list(o) for o in ops], 'salt': draw(st.integers(0, 1000))}
    return s()


def val(shape, salt, tag):
    """deterministic generic values"""
    h = 0
    for ch in str(tag):
        h = (h*31 + ord(ch)) % 9973
    n = shape[0]*shape[1]
    return np.round(np.sin(np.arange(1, n+1)*1.7 + salt*0.77 + h*0.913)*4, 3).reshape(shape)


def basis_of(sp, BSplineBasis):
    deg, n = sp[1], sp[2]
    return BSplineBasis(np.r_[[0.]*deg, np.linspace(0, 1, n+1), [1.]*deg], deg)


def c_model(case, ctx):
    import casadi as cas
    OptiFather, OptiChild, BSplineBasis, BSpline = _o()
    salt = case['salt']

    class Child(OptiChild):
        def __init__(self, label):
            OptiChild.__init__(self, label)
            self.par_fun = lambda t: {}

        def set_parameters(self, time):
            return self.par_fun(time)

    children = [Child(ch['label']) for ch in case['ch']]
    labels = [c.label for c in children]
    ctx.ok(len(set(labels)) == len(labels), 'labels are not unique: %s', labels)
    owner = {}
    for i, ch in enumerate(case['ch']):
        for d in ch['vars'] + ch['pars']:
            if d[0].startswith('sh'):
                owner[d[0]] = i

    shapes, kind = {}, {}      # (child, name) -> shape / 'var','par'

    def declare():
        for i, (c, ch) in enumerate(zip(children, case['ch'])):
            mx = {}
            for d in ch['vars']:
                given = (len(d[0]) + d[1] + i) % 2 == 0
                v = val((d[1], d[2]), salt, ('init', i, d[0]))
                mx[d[0]] = c.define_variable(d[0], d[1], d[2], **({'value': v} if given else {}))
                shapes[i, d[0]], kind[i, d[0]] = (d[1], d[2]), 'var'
                state[i, d[0]] = v if given else np.zeros((d[1], d[2]))
            for d in ch['pars']:
                given = (len(d[0]) + d[1] + i) % 2 == 1
                v = val((d[1], d[2]), salt, ('pinit', i, d[0]))
                mx[d[0]] = c.define_parameter(d[0], d[1], d[2], **({'value': v} if given else {}))
                shapes[i, d[0]], kind[i, d[0]] = (d[1], d[2]), 'par'
                state[i, d[0]] = v if given else np.zeros((d[1], d[2]))
            for nm in ch['sym']:
                o = [d for d in case['ch'][owner[nm]]['vars'] + case['ch'][owner[nm]]['pars'] if d[0] == nm][0]
                mx[nm] = c.define_symbol(nm, o[1], o[2])
            spl = []
            for sp in ch['spl']:
                fun = c.define_spline_variable if sp[4] == 'var' else c.define_spline_parameter
                spl.append(fun(sp[0], sp[3], basis=basis_of(sp, BSplineBasis)))
                shapes[i, sp[0]], kind[i, sp[0]] = (sp[1]+sp[2], sp[3]), sp[4]
                state[i, sp[0]] = np.zeros((sp[1]+sp[2], sp[3]))
            own[i] = (mx, spl)
            for con in ch['con']:
                rows = [poly(r, lambda nm: mx[nm], i, True) for r in con['rows']]
                expr = cas.vertcat(*rows) if len(rows) > 1 else rows[0]
                kw = {}
                if con['shut']:
                    kw['shutdown'] = con['shut']
                if con['name']:
                    kw['name'] = con['name']
                c.define_constraint(expr, con['lb'], con['ub'], **kw)
            for sc in ch['scon']:
                s = spl[sc['i']][sc['k']]
                kw = {} if sc['skip'] is None else {'skip': sc['skip']}
                c.define_constraint(sc['a']*s + sc['b'], sc['lb'], sc['ub'], **kw)
            for t in ch['obj']:
                c.define_objective(poly([t], lambda nm: mx[nm], i, True))

    def poly(terms, get, i, symbolic):
        e = 0.
        for a, refs in terms:
            t = a
            for nm, k in refs:
                m = get(nm)
                n = m.shape[0]*m.shape[1]
                k = k % n
                r, cc = k % m.shape[0], k // m.shape[0]
                t = t*m[r, cc]
            e = e + t
        if symbolic and not isinstance(e, cas.MX):
            e = cas.MX(e)
        return e

    state, own = {}, {}
    declare()

    def num_get(i):
        def g(nm):
            if nm.startswith('sh'):
                return state[owner[nm], nm]
            return state[i, nm]
        return g

    def oracle():
        con, obj, lb, ub, shut = [], 0., [], [], []
        for i, ch in enumerate(case['ch']):
            for c in ch['con']:
                for r in c['rows']:
                    con.append(poly(r, num_get(i), i, False))
                    lb.append(c['lb'])
                    ub.append(c['ub'])
                    shut.append(c['shut'])
            for sc in ch['scon']:
                v = sc['a']*state[i, ch['spl'][sc['i']][0]][:, sc['k']] + sc['b']
                sk = sc['skip'] or [0, 0]
                v = v[sk[0]:len(v)-sk[1]]
                con += v.tolist()
                lb += [sc['lb']]*len(v)
                ub += [sc['ub']]*len(v)
                shut += [None]*len(v)
            for t in ch['obj']:
                obj += poly([t], num_get(i), i, False)
        return con, obj, lb, ub, shut

    father = OptiFather(children)
    shared = any(ch['sym'] for ch in case['ch'])
    ctx.nontrivial(len(children) > 1 and shared)
    ctx.label('components %d' % len(children))
    ctx.label('shared symbol', int(shared))
    if not any(kind[k] == 'var' for k in kind) or not oracle()[0]:
        ctx.skip('no variable or no constraint')
    if any(not ch['vars'] and not any(s[4] == 'var' for s in ch['spl']) for ch in case['ch']):
        ctx.label('component without variables')
    compose(father, ctx)

    def check(what):
        d = father.problem_description
        f = cas.Function('f', [d['var'].cat, d['par'].cat], [cas.MX(d['obj']), d['con'].cat])
        con, obj, lb, ub, shut = oracle()
        got = f(father.get_variables().cat, father.get_parameters().cat)
        ctx.close(np.array(got[1]).ravel(), con, 'constraint values after %s' % what, 1e-9)
        ctx.close(float(got[0]), obj, 'objective after %s' % what, 1e-9)
        # what the program reports about each component
        rep, tot = [], 0.
        for c in children:
            rep += [np.array(father.get_constraint(c, nm)).ravel() for nm in c._constraints]
            tot += float(np.array(father.get_objective(c, '')).ravel()[0])
        ctx.close(np.concatenate(rep), con, 'constraint values reported after %s' % what, 1e-9)
        ctx.close(tot, obj, 'objective reported after %s' % what, 1e-9)
        for (i, nm), v in state.items():
            g = (father.get_variables if kind[i, nm] == 'var' else father.get_parameters)
            got = g(children[i], nm, spline=False)
            ctx.close(got, v, 'value of %s of component %d after %s' % (nm, i, what), 1e-12)
            ctx.ok(np.array(got).shape == v.shape, 'shape of %s changed', nm)
        for i, ch in enumerate(case['ch']):
            for sp in ch['spl']:
                g = (father.get_variables if sp[4] == 'var' else father.get_parameters)
                r = g(children[i], sp[0])
                ctx.ok(len(r) == sp[3], 'number of splines of %s', sp[0])
                for k, s in enumerate(r):
                    ctx.close(np.array(s.coeffs).ravel(), state[i, sp[0]][:, k], 'spline %s[%d]' % (sp[0], k), 1e-12)
                    ctx.ok(s.basis.degree == sp[1] and len(s.basis) == sp[1] + sp[2], 'basis of %s', sp[0])

    check('construction')
    pv = {}         # parameters provided by set_parameters at a time
    for op, a, b in case['ops']:
        names = sorted(state)
        vn = [k for k in names if kind[k] == 'var']
        pn = [k for k in names if kind[k] == 'par']
        if op == 'setall':
            for k in vn:
                state[k] = val(shapes[k], b, ('all',) + k)
            vec = np.concatenate([state[i, nm].ravel(order='F') for i, ch in enumerate(case['ch'])
                                  for nm in [d[0] for d in ch['vars']] + [s[0] for s in ch['spl'] if s[4] == 'var']])
            father.set_variables(vec)
        elif op == 'setone':
            k = vn[a % len(vn)]
            state[k] = val(shapes[k], b, ('one',) + k)
            father.set_variables(state[k], children[k[0]], k[1])
        elif op == 'setpar' and pn:
            # component a%n reports values for some parameters (its own and others')
            new = {}
            for j, k in enumerate(pn):
                if (b >> j) % 2:
                    new[k] = val(shapes[k], b, ('par',) + k)
            rep = children[a % len(children)]
            for c in children:
                c.par_fun = lambda t: {}
            out = {}
            for k, v in new.items():
                out.setdefault(children[k[0]], {})[k[1]] = v
            rep.par_fun = lambda t, out=out: out
            for k in pn:
                state[k] = new[k] if k in new else pv.get(k, default_par(k, case, salt))
            father.set_parameters(float(b % 7))
        elif op == 'defval' and pn:
            k = pn[a % len(pn)]
            pv[k] = val(shapes[k], b, ('def',) + k)
            children[k[0]].set_value(k[1], pv[k])
            for c in children:
                c.par_fun = lambda t: {}
            for q in pn:
                state[q] = pv.get(q, default_par(q, case, salt))
            father.set_parameters(0.)
        elif op == 'init':
            for k in vn:
                state[k] = default_var(k, case, salt)
            father.init_variables()
        elif op == 'bounds':
            t = [0., 0.5, 1., 2., 2.5, 7.][a % 6]
            lb, ub = father.update_bounds(t)
            _, _, lo, hi, shut = oracle()
            for j, sh in enumerate(shut):
                if sh and eval(sh, {'t': t}):
                    lo[j], hi[j] = -np.inf, np.inf
                    ctx.label('constraint switched off')
            for got, want, nm in ((lb, lo, 'lower'), (ub, hi, 'upper')):
                got = np.array(got.cat).ravel()
                ctx.ok(len(got) == len(want), 'number of bounds')
                ctx.ok(all(g == w or abs(g-w) < 1e-12 for g, w in zip(got, want)), '%s bounds at t=%s: %s, expected %s',
                       nm, t, got.tolist(), want)
        elif op == 'recompose':
            # start all over: the definitions are rebuilt, nothing of the old program may survive
            father.reset()
            state.clear()
            pv.clear()
            for c in children:
                c.par_fun = lambda t: {}
            declare()
            father2 = OptiFather(children)
            compose(father2, ctx)
            father = father2
        else:
            continue
        ctx.label('op ' + op)
        check(op)
    # symbols never leak: every free symbol of the program is the variable or parameter vector
    free = cas.symvar(cas.vertcat(cas.MX(father.problem_description['obj']), father.problem_description['con'].cat))
    ctx.ok(len(free) <= 2, 'assembled program has undefined symbols: %s', free)


def compose(father, ctx):
    """assemble without building a solver"""
    father.construct_problem({'verbose': 0}, problem=object())


def default_var(k, case, salt):
    i, nm = k
    for d in case['ch'][i]['vars']:
        if d[0] == nm:
            if (len(nm) + d[1] + i) % 2 == 0:
                return val((d[1], d[2]), salt, ('init', i, nm))
            return np.zeros((d[1], d[2]))
    sp = [s for s in case['ch'][i]['spl'] if s[0] == nm][0]
    return np.zeros((sp[1]+sp[2], sp[3]))


def default_par(k, case, salt):
    i, nm = k
    for d in case['ch'][i]['pars']:
        if d[0] == nm:
            if (len(nm) + d[1] + i) % 2 == 1:
                return val((d[1], d[2]), salt, ('pinit', i, nm))
            return np.zeros((d[1], d[2]))
    sp = [s for s in case['ch'][i]['spl'] if s[0] == nm][0]
    return np.zeros((sp[1]+sp[2], sp[3]))


# ---------------------------------------------------------------- definition errors
def g_err(st):
    @st.composite
    def s(draw):
        return {'n': draw(st.integers(2, 4)), 'user': draw(st.integers(0, 3)), 'defs': draw(st.lists(st.tuples(
            st.integers(0, 3), st.booleans()), max_size=3)), 'twice': draw(st.booleans()),
            'label': draw(st.sampled_from(['c', 'vehicle7', 'a0', 'x9']))}
    return s()


def c_err(case, ctx):
    OptiFather, OptiChild, BSplineBasis, BSpline = _o()
    n = case['n']
    user = case['user'] % n
    ch = [OptiChild(case['label']) for _ in range(n)]
    ctx.ok(len(set(c.label for c in ch)) == n, 'labels are not unique')
    defs = {}
    for d, isvar in case['defs']:
        if d % n != user and d % n not in defs:
            defs[d % n] = isvar
    sym = ch[user].define_symbol('s', 2)
    ch[user].define_variable('w')
    ch[user].define_constraint(sym[0] + ch[user]._variables['w'], 0., 1.)
    for d, isvar in defs.items():
        (ch[d].define_variable if isvar else ch[d].define_parameter)('s', 2, value=np.array([d+1., 5.]))
    for c in ch:
        if not c._variables:
            c.define_variable('dummy')
    father = OptiFather(ch)
    ctx.nontrivial(len(defs) != 1)
    ctx.label('definitions %d' % len(defs))
    try:
        father.construct_problem({'verbose': 0}, problem=object())
        err = None
    except ValueError as e:
        err = e
    ctx.ok((err is None) == (len(defs) == 1), 'symbol with %d definitions: %s', len(defs),
           'accepted' if err is None else 'rejected (%s)' % err)
    if err is None and case['twice']:
        # the same parameter reported by two components must be refused
        d = list(defs)[0]
        if not defs[d]:
            a, b = ch[0], ch[1]
            a.set_parameters = lambda t: {ch[d]: {'s': np.ones(2)}}
            b.set_parameters = lambda t: {ch[d]: {'s': np.ones(2)}}
            try:
                father.set_parameters(0.)
                ok = False
            except ValueError:
                ok = True
            ctx.ok(ok, 'a parameter reported twice was accepted')
            ctx.label('parameter reported twice')


# ---------------------------------------------------------------- spline transformations of stored solutions
def g_tf(st):
    @st.composite
    def s(draw):
        nc = draw(st.integers(1, 3))
        ch = []
        for _ in range(nc):
            ch.append([[nm, draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.integers(1, 2))]
                       for nm in draw(st.sets(st.sampled_from(['splines_seg0', 'splines_seg1', 'splines_seg2', 'a_seg0_0', 'free']),
                                              min_size=1, max_size=3))])
        return {'ch': ch, 'seg': draw(st.one_of(st.none(), st.integers(0, 2), st.lists(st.integers(0, 2), unique=True, max_size=3))),
                'salt': draw(st.integers(0, 99)), 'init': draw(st.booleans()), 'dual': draw(st.booleans())}
    return s()


def c_tf(case, ctx):
    OptiFather, OptiChild, BSplineBasis, BSpline = _o()
    father = OptiFather()
    ch, want = [], {}
    for i, spl in enumerate(case['ch']):
        c = OptiChild('part')
        ch.append(c)
        for sp in spl:
            v = val((sp[1]+sp[2], sp[3]), case['salt'], (i, sp[0]))
            s = c.define_spline_variable(sp[0], sp[3], basis=basis_of(sp, BSplineBasis), value=v)
            c.define_constraint(s[0], 0., 1.)
    father.add(ch)
    father.construct_problem({'verbose': 0}, problem=object())
    calls = []
    mk = (lambda b: ('I', len(b), b.degree)) if case['init'] else (lambda b: None)
    father.init_transformations(mk, mk)
    for i, spl in enumerate(case['ch']):
        for sp in spl:
            got = father.get_variables(ch[i], sp[0], spline=False)
            ctx.close(got, val((sp[1]+sp[2], sp[3]), case['salt'], (i, sp[0])), 'initial spline value', 1e-12)

    def tf(coeffs, basis, init=None):
        calls.append((len(basis), basis.degree, init))
        return 2.*np.array(coeffs) + len(basis)
    seg = case['seg']
    segs = [0] if seg is None else (seg if isinstance(seg, list) else [seg])
    if seg is None:
        father.transform_primal_splines(tf)
    else:
        father.transform_primal_splines(tf, seg)
    n = 0
    for i, spl in enumerate(case['ch']):
        for sp in spl:
            v = val((sp[1]+sp[2], sp[3]), case['salt'], (i, sp[0]))
            if any('seg%d' % k in sp[0] for k in segs):
                v = 2.*v + (sp[1]+sp[2])
                n += 1
            got = father.get_variables(ch[i], sp[0], spline=False)
            ctx.close(got, v, 'spline %s of component %d after a transformation of segments %s' % (sp[0], i, segs), 1e-12)
    ctx.nontrivial(n > 0)
    for c in calls:
        if case['init']:
            ctx.ok(c[2] == ('I', c[0], c[1]), 'transformation of another basis was used')
        else:
            ctx.ok(c[2] is None, 'unexpected transformation data')
    if case['dual']:
        d = father.get_dual_variables()
        father.set_dual_variables(np.arange(1., d.size + 1))
        before = np.array(father.get_dual_variables().cat).ravel().copy()
        lens = []

        def tfd(coeffs, basis, init=None):
            lens.append(len(basis))
            return 3.*np.array(coeffs)
        father.transform_dual_splines(tfd)
        after = np.array(father.get_dual_variables().cat).ravel()
        ctx.close(after, 3.*before, 'dual splines after a transformation', 1e-12)
        ctx.ok(sum(lens) == len(before), 'dual transformation with a wrong basis')
        ctx.label('dual')


# ---------------------------------------------------------------- substitutes
def g_sub(st):
    @st.composite
    def s(draw):
        return {'deg': draw(st.integers(1, 3)), 'n': draw(st.integers(1, 4)), 'dim': draw(st.integers(1, 3)),
                'off': draw(st.lists(gen.num(st), min_size=3, max_size=3)), 'salt': draw(st.integers(0, 99)),
                'writes': draw(st.lists(st.integers(0, 99), max_size=3))}
    return s()


def c_sub(case, ctx):
    OptiFather, OptiChild, BSplineBasis, BSpline = _o()
    c = OptiChild('v')
    other = OptiChild('v')
    sp = ['s', case['deg'], case['n'], case['dim']]
    b = basis_of(sp, BSplineBasis)
    N = len(b)
    v0 = val((N, case['dim']), case['salt'], 's')
    spl = c.define_spline_variable('s', case['dim'], basis=b, value=v0)
    off = c.define_parameter('off', case['dim'], value=np.array(case['off'][:case['dim']]))
    other.define_spline_variable('s', case['dim'], basis=b, value=val((N, case['dim']), case['salt'], 'other'))
    sub = c.define_substitute('center', [s*2. + off[k] for k, s in enumerate(spl)])
    mat = c.define_substitute('mat', off*3.)
    c.define_constraint(spl[0], -1., 1.)
    father = OptiFather([c, other])
    father.construct_problem({'verbose': 0}, problem=object())
    ctx.nontrivial(case['n'] > 1)
    ctx.ok(len(sub) == case['dim'], 'number of substitutes')
    cur = v0
    for step in [None] + case['writes']:
        if step is not None:
            cur = val((N, case['dim']), step, 'w')
            father.set_variables(cur, c, 's')
        for k in range(case['dim']):
            got = father.get_variables(c, 'center%d' % k)
            ctx.close(np.array(got[0].coeffs).ravel(), cur[:, k]*2. + case['off'][k], 'substituted spline value', 1e-10)
            got = father.get_variables(c, 'center%d' % k, spline=False)
            ctx.close(np.array(got).ravel(), cur[:, k]*2. + case['off'][k], 'substituted coefficients', 1e-10)
        ctx.close(np.array(father.get_variables(c, 'mat')).ravel(), 3.*np.array(case['off'][:case['dim']]), 'substituted matrix', 1e-10)
    try:
        c.define_substitute('mat', off)
        dup = False
    except ValueError:
        dup = True
    ctx.ok(dup, 'a substitute name was accepted twice')


# ---------------------------------------------------------------- compiled programs
def g_code(st):
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 3))
        num = lambda: draw(st.integers(-40, 40))/10.
        return {'build': draw(st.sampled_from([['shared'], ['shared', 'existing'], ['shared', 'shared'], [None, 'shared', 'existing']])),
                'name': draw(st.sampled_from(['', 'a'])), 'flags': draw(st.sampled_from(['-O0', '-O1'])),
                'dim': [draw(st.integers(1, 3)) for _ in range(n)],
                'a': [num() for _ in range(9)], 'p': [[num() for _ in range(9)] for _ in range(3)],
                'b': [abs(num()) + 0.1 for _ in range(9)], 'ex': [draw(st.integers(-10, 10))/10. for _ in range(9)]}
    return s()


def c_code(case, ctx):
    import os
    import shutil
    import tempfile
    optilayer = __import__('omgtools.basics.optilayer', fromlist=['x'])
    OptiFather, OptiChild, BSplineBasis, BSpline = _o()
    dim = case['dim']
    off = np.r_[0, np.cumsum(dim)]
    a, b, ex = np.array(case['a']), np.array(case['b']), np.array(case['ex'])

    class C(OptiChild):
        def set_parameters(self, time):
            return {self: {'p': self.now}}
    here, tmp = os.getcwd(), tempfile.mkdtemp()
    try:
        os.chdir(tmp)
        for r, build in enumerate(case['build']):
            if build == 'existing':
                k = 1.                                     # the program compiled before
            else:
                k = 1. + r
            ch = []
            for i, d in enumerate(dim):
                c = C('c')
                x, p = c.define_variable('x', d), c.define_parameter('p', d)
                for j in range(d):
                    g = off[i]+j
                    c.define_constraint(x[j]*2., -b[g], b[g])
                    c.define_objective(k*(x[j]-a[g]*p[j]-ex[g])**2)
                c.now = np.array(case['p'][r][off[i]:off[i+1]])
                ch.append(c)
            f = OptiFather(ch)
            prob = f.construct_problem({'verbose': 0, 'codegen': {'build': build, 'flags': case['flags']}, 'solver': 'ipopt', 'solver_options': {
                'ipopt': {'ipopt.tol': 1e-9, 'ipopt.print_level': 0, 'print_time': 0, 'ipopt.sb': 'yes'}}}, case['name'])[0]
            f.init_variables()
            par = f.set_parameters(0.)
            lb, ub = f.update_bounds(0.)
            res = prob(x0=f.get_variables(), p=par, lbg=lb, ubg=ub)
            want = np.concatenate([np.clip(a[off[i]:off[i+1]]*c.now+ex[off[i]:off[i+1]], -b[off[i]:off[i+1]]/2., b[off[i]:off[i+1]]/2.) for i, c in enumerate(ch)])
            ctx.close(np.array(res['x']).ravel(), want, 'solution of the program built with %s (build %d of %s)' % (build, r, case['build']), 1e-4)
            g = off[-1]
            J = sum((want[q]-a[q]*np.concatenate([c.now for c in ch])[q]-ex[q])**2 for q in range(g))
            import casadi as cas
            u, w = cas.MX.sym('u', 2), cas.MX.sym('w')
            fun = optilayer.create_function('fun', [u, w], [k*u[0]*w+u[1], w**2], {'verbose': 0, 'codegen': {'build': build, 'flags': case['flags']}})[0]
            y = fun([a[0], a[1]], ex[0])
            ctx.close([float(y[0]), float(y[1])], [case_k(case, r)*a[0]*ex[0]+a[1], ex[0]**2], 'function built with %s' % build, 1e-9)
            # an existing program is the one compiled last, whatever its weight
            ctx.ok(abs(float(res['f'])-J*(case_k(case, r))) < 1e-3*(1+J), 'objective of the program built with %s', build)
            ctx.ok(not os.path.exists('nlp.c') and not [q for q in os.listdir('.') if q.endswith('.c')], 'sources left behind: %s', os.listdir('.'))
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.label('builds %d' % len(case['build']))
    ctx.nontrivial(len(case['build']) > 1 or len(dim) > 1)


def case_k(case, r):
    """weight of the objective in the program that answers"""
    while case['build'][r] == 'existing':
        r -= 1
    return 1. + r


SUBS = [
    Sub('model', g_children, c_model, quick=2800, shards=4, rule='two or more components with a shared symbol'),
    Sub('definition_errors', g_err, c_err, quick=1200, rule='symbol with no or several definitions'),
    Sub('spline_transforms', g_tf, c_tf, quick=1200, rule='at least one spline transformed'),
    Sub('substitutes', g_sub, c_sub, quick=600, rule='several knot intervals'),
    Sub('compiled', g_code, c_code, quick=24, thorough=600, shards=1, rule='several builds or components'),
]
