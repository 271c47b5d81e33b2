"""Electromagnetic checks: exact Gaussian-rational plan values and their decoding."""
import numpy as np
from fractions import Fraction as Fr


def q(p, i=0, d=1):
    """(p + i*1j)/d as a normalised GRat tuple"""
    from math import gcd
    g = gcd(gcd(abs(int(p)), abs(int(i))), int(d)) or 1
    return [int(p) // g, int(i) // g, int(d) // g]


def qf(x):
    x = Fr(x)
    return q(x.numerator, 0, x.denominator)


def dq(x):
    return complex(x[0], x[1]) / x[2]


def dqs(xs):
    a = np.asarray(xs, dtype=float)
    return (a[..., 0] + 1j * a[..., 1]) / a[..., 2]


Q1 = [1, 0, 1]
BLOCH = [q(1), q(-1), q(0, 1), q(3, 4, 5), q(-4, 3, 5), q(0, -1)]
SHAPES1 = [(4, 1, 1), (5, 1, 1), (6, 1, 1)]
SHAPES2 = [(3, 4, 1), (4, 3, 1), (4, 4, 1), (5, 3, 1), (3, 3, 1)]
SHAPES3 = [(3, 3, 3), (3, 4, 3), (4, 3, 2), (2, 3, 4), (3, 2, 3)]


def grid(rng, ndim, shape=None, bloch=True, iso=None, winv=(1, 2, 4, Fr(1, 2))):
    shape = shape or rng.choice({1: SHAPES1, 2: SHAPES2, 3: SHAPES3}[ndim])
    iso = rng.random() < .3 if iso is None else iso
    w0 = rng.choice(winv)
    w = [w0 if iso else rng.choice(winv) for _ in range(ndim)]
    b = [rng.choice(BLOCH) if bloch else Q1 for _ in range(ndim)]
    return dict(n=list(shape), w=[qf(x) for x in w] + [Q1] * (3 - ndim), b=b + [Q1] * (3 - ndim)), \
        dict(ndim=ndim, shape=shape[:ndim], spacing=tuple(float(1 / Fr(x)) for x in w), bloch=tuple(float(np.angle(dq(x))) for x in b))


def kwargs(gi, rng=None, bloch=True):
    """constructor arguments of a real grid"""
    sp = gi['spacing']
    size = tuple(n * s for n, s in zip(gi['shape'], sp))
    spacing = sp[0] if len(set(sp)) == 1 and (rng is None or rng.random() < .5) else sp
    kw = dict(size=size, spacing=spacing)
    if bloch:
        bl = gi['bloch']
        kw['bloch_phase'] = bl if any(bl) else 0.0
        if rng is not None:                      # the same phases in another notation
            how = rng.choice(['', '', 'scalar', 'list', 'array'])
            if how == 'scalar' and len(set(bl)) == 1:
                kw['bloch_phase'] = rng.choice([bl[0], np.float64(bl[0])] if any(bl) else [0, np.int64(0), 0.])
            elif how in ('list', 'array'):
                kw['bloch_phase'] = list(bl) if how == 'list' else np.array(bl)
    return kw


def ints(rng, n, m=4, cplx=True):
    return [q(rng.randint(-m, m), rng.randint(-m, m) if cplx else 0) for _ in range(n)]


def layout(rng, a):
    """the same values in another memory layout"""
    a = np.asarray(a)
    how = rng.choice(['C', 'C', 'F', 'strided', 'reversed', 'readonly'])
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros((*a.shape, 2), a.dtype)
        b[..., 0] = a
        return b[..., 0]
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    if how == 'readonly':
        a = a.copy()
        a.setflags(write=False)
    return a


def arr(xs, shape):
    return dqs(xs).reshape(shape)


def eps_cells(rng, shape, values=(1, 2, 4), lossy=False):
    """permittivities, complex ones (absorbing or amplifying materials) if lossy"""
    c, m = rng.choice([(0, 1), (1, 1), (-1, 1), (0, 'i'), (0, '1+i'), (0, '1-i')]) if lossy else (0, 1)
    out = []
    for _ in range(int(np.prod(shape))):
        r = rng.choice(values)
        out.append(q(r, c) if m == 1 else q(0, r) if m == 'i' else q(r, r if m == '1+i' else -r))
    return out


def real_if(a):
    """real array unless it has imaginary parts"""
    return a if np.any(a.imag) else a.real


def size_of(g):
    return g['n'][0] * g['n'][1] * g['n'][2]
