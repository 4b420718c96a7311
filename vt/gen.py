"""Strategies (all produce plain JSON data)."""


def num(st, lo=-10., hi=10., q=100):
    return st.integers(int(round(lo*q)), int(round(hi*q))).map(lambda i: i/float(q))


def knots_case(st, min_deg=1, max_deg=5, min_int=1, max_int=7, mult='deg', uniform=None):
    """basis described by degree, integer gaps, interior multiplicities, start and length"""
    @st.composite
    def strat(draw):
        deg = draw(st.integers(min_deg, max_deg))
        n = draw(st.integers(min_int, max_int))
        uni = draw(st.booleans()) if uniform is None else uniform
        gaps = [1]*n if uni else draw(st.lists(st.integers(1, 5), min_size=n, max_size=n))
        if mult == 'one' or deg == 0:
            mu = [1]*(n - 1)
        else:
            top = deg if mult == 'deg' else deg + 1
            mu = draw(st.lists(st.one_of(st.just(1), st.integers(1, max(1, top))), min_size=n - 1, max_size=n - 1))
        start = draw(st.sampled_from([0., 0., 0., 1.5, -2.25]))
        length = draw(st.sampled_from([1., 1., 2.5, 10., 0.3]))
        return {'deg': deg, 'gaps': gaps, 'mult': mu, 'start': start, 'length': length}
    return strat()


def knots_of(c):
    import numpy as np
    tot = float(sum(c['gaps']))
    br = [c['start'] + c['length']*(sum(c['gaps'][:k])/tot) for k in range(len(c['gaps']) + 1)]
    kn = [br[0]]*(c['deg'] + 1)
    for b, m in zip(br[1:-1], c['mult']):
        kn += [b]*m
    kn += [br[-1]]*(c['deg'] + 1)
    return np.array(kn)


def n_coeffs(c):
    return c['deg'] + 1 + sum(c['mult'])


def coeffs(st, n, lo=-10., hi=10.):
    return st.lists(num(st, lo, hi), min_size=n, max_size=n)


def pick(draw, st, options):
    """uniform choice: Hypothesis repeats and favours small values, which starves the
    other options in a small number of examples; a hash of a drawn seed does not"""
    import zlib
    seed = draw(st.integers(0, 2**40-1))
    return options[zlib.crc32(b'%d' % seed) % len(options)]
