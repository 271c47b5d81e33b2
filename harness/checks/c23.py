"""C23: design transforms are exact symmetrisations, masks and bounded filters."""
import numpy as np
from harness.core import Impl, tlc, close, err

META = dict(level='model_checking', technique='TLA+ (Transform.tla) exact transforms: symmetry, idempotence, conservation, locality as invariants over all flags; every value replayed by the real transforms',
            note='TLC applies every combination of symmetry flags to designs of planned sizes (even, odd, one-pixel, square), boxes to designs and the disk filter to designs, checks the laws exactly and emits the results; get_symmetry_fn, get_mask_fn and get_smooth_fn must return them (smoothing through its documented tanh projection), for NumPy and JAX designs, with gradients equal to the transposed linear map.',
            rule='one behaviour per design and flags', assumptions=['positions of boxes are multiples of 1/4 and spacings are powers of two (no rounding)', 'known finding: one orthogonal symmetry together with a diagonal one'])


def run(ctx):
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    from simphox.transform import get_symmetry_fn, get_mask_fn, get_smooth_fn
    from simphox.utils import Box
    rng = ctx.rng
    plan, info = [], []

    def design(r, c, lo=-9, hi=9):
        return dict(r=r, c=c, v=[rng.randint(lo, hi) for _ in range(r * c)])
    sizes = [(1, 1), (1, 4), (3, 1), (2, 2), (3, 3), (4, 4), (5, 5), (2, 3), (4, 3), (5, 4), (3, 6), (6, 6)]
    for r, c in sizes + ([(7, 7), (8, 8), (1, 2), (2, 1), (7, 4), (6, 5), (8, 3)] * 3 if not ctx.quick else []):
        plan.append(dict(kind='sym', d=design(r, c)))
        info.append({})
    for _ in range(40 if ctx.quick else 400):
        r, c = rng.randint(1, 7), rng.randint(1, 7)
        boxes = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            s = rng.choice([1, 2, 4, 8])                  # spacing, in quarters
            x0, y0 = rng.randint(-8, 4 * r), rng.randint(-8, 4 * c)
            if s > 4:
                x0, y0 = rng.randint(-8, 8 * r), rng.randint(-8, 8 * c)
            w, h = rng.randint(0, 4 * r), rng.randint(0, 4 * c)
            boxes.append(dict(s=s, x0=x0, y0=y0, x1=x0 + w, y1=y0 + h))
        # fractional positions below zero are truncated toward zero by the real code: keep those on the pixel grid
        for b in boxes:
            for k in ('x0', 'y0', 'x1', 'y1'):
                if b[k] < 0:
                    b[k] = -((-b[k]) // b['s']) * b['s']
        plan.append(dict(kind='mask', d=design(r, c), d2=design(r, c, 20, 40), boxes=boxes))
        info.append({})
    for _ in range(25 if ctx.quick else 200):
        r, c = rng.randint(1, 8), rng.randint(1, 8)
        rad = rng.choice([0, 1, 1, 2, 2, 3])
        d = design(r, c, 0, 8) if rng.random() < .7 else dict(r=r, c=c, v=[rng.choice([0, 8]) for _ in range(r * c)])
        if rng.random() < .2:
            d = dict(r=r, c=c, v=[rng.choice([0, 8])] * (r * c))
        plan.append(dict(kind='smooth', d=d, rad=rad, poke=[rng.randint(1, r), rng.randint(1, c)]))
        info.append(dict(beta=rng.choice([.25, 1., 2., 4., 16.]), eta=rng.choice([.5, .5, .25, .7])))
    recs, _ = tlc('Transform', plan, invariants=['Symmetric', 'Idempotent', 'Fixes', 'KeepsHalf', 'KeepsTotal', 'MaskSplit', 'Bounded', 'Commutes', 'Local', 'Uniform'], timeout=800)
    key = 'orthogonal symmetry requested together with a diagonal one'
    for rec in recs:
        p, gi = plan[rec['pi'] - 1], info[rec['pi'] - 1]
        sh = (p['d']['r'], p['d']['c'])
        x = np.array(p['d']['v'], float).reshape(sh)
        xp = rng.choice([np, jnp])
        arg = xp.array(x)
        exp = np.array(rec['out'], float).reshape(sh)
        ctx.count('behaviours')
        if p['kind'] == 'sym':
            fl = rec['fl']
            d = dict(design=x, flags=fl)
            ctx.sample(d)
            fkw = dict(ortho_x=fl['x'], ortho_y=fl['y'], diag_p=fl['p'], diag_n=fl['n'], avg=fl['avg'])
            with Impl(ctx, 'symmetry transform', d):
                fn = get_symmetry_fn(**fkw)
                got = np.asarray(fn(arg))
                full = np.array(rec['full'], float).reshape(sh) / 16
                if not close(fn(xp.array(full)), full, 1e-12):
                    ctx.violate('already symmetric designs are unchanged', d)
                if rec['mixed']:
                    sym = all(close(s, got, 1e-12) for on, s in ((fl['x'], got[::-1]), (fl['y'], got[:, ::-1]), (fl['p'], got.T), (fl['n'], got[::-1, ::-1].T)) if on)
                    if not sym:
                        ctx.violate('the result has every requested symmetry', d, key=key if close(got, exp / 16, 1e-12) else None)
                    continue
                if not close(got, exp / 16, 1e-12):
                    ctx.violate('the symmetrised design', dict(d, got=got, expected=exp / 16))
                if not np.array_equal(np.asarray(arg), x):
                    ctx.violate('transforms leave the given design unchanged', d)
                if rng.random() < .1:
                    g = np.random.default_rng(0).integers(-3, 4, sh).astype(float)
                    _, vjp = jax.vjp(fn, jnp.array(x))
                    if abs(np.sum(np.asarray(vjp(jnp.array(g))[0]) * x) - np.sum(g * exp / 16)) > 1e-9:
                        ctx.violate('gradients pass through symmetries', d)
        elif p['kind'] == 'mask':
            d = dict(initial=x, boxes=p['boxes'])
            y = np.array(p['d2']['v'], float).reshape(sh)
            with Impl(ctx, 'mask transform', d):
                def mk(b):
                    return Box(((b['x1'] - b['x0']) / 4, (b['y1'] - b['y0']) / 4), spacing=b['s'] / 4, min=(b['x0'] / 4, b['y0'] / 4))
                bs = [mk(b) for b in p['boxes']]
                fn = get_mask_fn(arg, bs[0] if len(bs) == 1 and rng.random() < .7 else bs)
                got = fn(xp.array(y))
                if not close(got, exp, 1e-12):
                    ctx.violate('masks keep the outside and pass the inside', dict(d, got=np.asarray(got), expected=exp))
                if rng.random() < .3:
                    g = np.asarray(jax.grad(lambda r: jnp.sum(fn(r)))(jnp.array(y)))
                    if not np.array_equal(g != 0, exp >= 20):
                        ctx.violate('only parameters inside the boxes matter', d)
                if not np.array_equal(np.asarray(arg), x):
                    ctx.violate('transforms leave the given design unchanged', d)
        else:
            d = dict(design=x / 8, radius=p['rad'], **gi)
            b, e = gi['beta'], gi['eta']
            proj = (np.tanh(b * e) + np.tanh(b * (exp / 8 / rec['area'] - e))) / (np.tanh(b * e) + np.tanh(b * (1 - e)))
            with Impl(ctx, 'smoothing', d):
                fn = get_smooth_fn(b, p['rad'], e) if e != .5 or rng.random() < .5 else get_smooth_fn(b, p['rad'])
                got = np.asarray(fn(xp.array(x / 8)))
                if not close(got, proj, 1e-9):
                    ctx.violate('smoothing is the projected disk average', dict(d, got=got, expected=proj))
                if got.min() < -1e-9 or got.max() > 1 + 1e-9:
                    ctx.violate('smoothed densities stay in [0, 1]', dict(d, got=got))
                one = np.asarray(fn(jnp.ones(sh)))
                R = p['rad']
                if np.abs(np.asarray(fn(jnp.zeros(sh)))).max() > 1e-9 or np.abs(one[R:sh[0] - R, R:sh[1] - R] - 1).max(initial=0) > 1e-9:
                    ctx.violate('smoothing keeps empty and full designs', d)
        if ctx.full:
            return
