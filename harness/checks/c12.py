"""C12: box placement algebra and block designs."""
import numpy as np
from harness.core import Impl, tlc

META = dict(level='model_checking', technique='TLA+ (Boxes.tla) exhaustive placement histories and exact block-design geometry, replayed on real boxes and grids',
            note='TLC enumerates every history of placements (translate, align, halign, valign, copy) over the boxes of a plan up to the depth bound, checking size/material preservation and edge postconditions, and computes block designs cell by cell with gap/separation/symmetry invariants; each is replayed on real boxes and grids. Seeded choices of sizes and options; positions in dyadic units are compared exactly, in decimal units within 1e-9; pixels are compared exactly in both.',
            rule='one behaviour per placement history or design',
            assumptions=['designs where a position rounds at a tie are excluded from the cell comparison'])
MATS = {1: 2.25, 2: 5.0, 3: 3.0}


def run(ctx):
    from simphox.utils import Box, Material
    from simphox.grid import Grid
    rng = ctx.rng
    plan = []
    for k in range(6 if ctx.quick else 40):
        boxes = [dict(min=[0, 0] if i == 0 and k % 2 else [rng.randrange(0, 40) for _ in 'xy'], size=[2 * rng.randrange(0, 12), 2 * rng.randrange(1, 12)], mat=i + 1) for i in range(2)]
        ops = [dict(op='translate', b=1, dx=rng.randrange(-5, 9), dy=rng.randrange(-5, 9)),
               dict(op='align', b=1, c=2), dict(op='align', b=2, c=1), dict(op='alignto', b=rng.choice([1, 2]), p=[rng.randrange(0, 30), rng.randrange(0, 30)]),
               dict(op='copy', b=1), dict(op='translate', b=2, dx=rng.randrange(0, 9), dy=rng.randrange(0, 9)),
               dict(op='halignto', b=1, low=rng.random() < .5, p=rng.randrange(0, 30)), dict(op='valignto', b=1, low=rng.random() < .5, p=rng.randrange(0, 30))]
        for low in (True, False):
            for opp in (True, False):
                b = rng.choice([1, 2])
                ops += [dict(op='halign', b=b, c=3 - b, low=low, opp=opp), dict(op='valign', b=3 - b, c=b, low=low, opp=opp)]
        plan.append(dict(kind='boxes', boxes=boxes, ops=ops, depth=2, pix=rng.choice([2, 3, 4, 8])))
    for k in range(900 if ctx.quick else 9000):
        sp = [8, 8] if rng.random() < .7 else rng.choice([[8, 16], [16, 8]])
        shape = [rng.choice([6, 7, 8, 10, 12, 14]), rng.choice([5, 6, 8, 10])]
        odd = lambda m: 2 * rng.randrange(1, 4 * m)
        hasblk = rng.random() < .7
        plan.append(dict(kind='design', g=dict(ndim=2, shape=shape + [1], sp=sp + [1]), boxes=[],
                         design=dict(wg=[odd(4), odd(4)], wgh=rng.choice([0, 0, rng.randrange(1, 40)]), gap=rng.choice([0, odd(4)]), hasblk=hasblk,
                                     blk=[odd(3), odd(3)], vertical=hasblk and rng.random() < .5, sep=[rng.randrange(0, 20) for _ in 'lr'],
                                     sub=rng.choice([0, rng.randrange(1, 40)]), rib=rng.choice([0, 0, rng.randrange(1, 30)]))))
    recs, _ = tlc('Boxes', plan, invariants=['DesignGeometry', 'Emit'], properties=['MovesOne', 'Post'], timeout=800)
    mats = {i: Material(f'm{i}', MATS[i]) for i in MATS}
    designs = 0
    for r in recs:
        p = plan[r['pi'] - 1]
        q = rng.choice([.25, .5, .125, 1., .1, .05])
        exact = q not in (.1, .05)
        if p['kind'] == 'boxes':
            ops = [p['ops'][i - 1] for i in r['hist']]
            d = dict(boxes=p['boxes'], unit=q, pixel=round(p['pix'] * q, 9), history=ops)
            ctx.count('behaviours'); ctx.sample(d)
            with Impl(ctx, 'placing boxes', d):
                bs = [Box(tuple(round(x * q, 9) for x in b['size']), material=mats[b['mat']], spacing=round(p['pix'] * q, 9), min=tuple(round(x * q, 9) for x in b['min'])) for b in p['boxes']]
                for o in ops:
                    b = bs[o['b'] - 1]
                    c = bs[o['c'] - 1] if 'c' in o else None
                    if o['op'] == 'translate':
                        ret = b.translate(o['dx'] * q, o['dy'] * q) if rng.random() < .5 else b.translate(dx=o['dx'] * q).translate(dy=o['dy'] * q)
                    elif o['op'] == 'align':
                        ret = b.align(c)
                    elif o['op'] == 'alignto':
                        ret = b.align(tuple(round(x * q, 9) for x in o['p']))
                    elif o['op'] == 'halign':
                        ret = b.halign(c, left=o['low'], opposite=o['opp'])
                    elif o['op'] == 'valign':
                        ret = b.valign(c, bottom=o['low'], opposite=o['opp'])
                    elif o['op'] == 'halignto':
                        v = o['p'] * q
                        ret = b.halign(int(v) if v == int(v) and rng.random() < .5 else v, left=o['low'])
                    elif o['op'] == 'valignto':
                        v = o['p'] * q
                        ret = b.valign(int(v) if v == int(v) and rng.random() < .5 else v, bottom=o['low'])
                    else:
                        bs.append(b.copy); ret = b
                    if ret is not b:
                        ctx.violate('placements return the box for chaining', d)
                for k, (b, w) in enumerate(zip(bs, r['box'])):
                    mn, sz = [round(x * q, 9) for x in w['min']], [round(x * q, 9) for x in w['size']]
                    same = (lambda a, b: list(a) == b) if exact else (lambda a, b: np.allclose(a, b, rtol=0, atol=1e-9))
                    if not (same(b.min, mn) and same(b.size, sz) and same(b.max, [a + s for a, s in zip(mn, sz)])
                            and same(b.center, [a + s / 2 for a, s in zip(mn, sz)])):
                        ctx.violate('each box is where its placements put it', dict(d, box=k, min=b.min, size=b.size, want=dict(min=mn, size=sz)))
                    if b.eps != MATS[w['mat']] or b.material.name != f"m{w['mat']}":
                        ctx.violate('placements keep the material', dict(d, box=k))
                    if min(w['min']) >= 0:
                        lo, hi = r['pix'][k]['lo'], r['pix'][k]['hi']
                        arr = np.zeros((hi[0] + 3, hi[1] + 2)); arr[0, 0] = 4
                        a0 = arr.copy()
                        m = b.mask(arr)
                        want = np.zeros(arr.shape); want[lo[0]:hi[0], lo[1]:hi[1]] = 1
                        if not (tuple(b.min_i) == tuple(lo) and tuple(b.max_i) == tuple(hi) and tuple(b.shape) == tuple(h - l for h, l in zip(hi, lo))):
                            ctx.violate('pixel bounds and pixel shape follow the position', dict(d, box=k, got=[b.min_i, b.max_i, b.shape]))
                        if not np.array_equal(m, want):
                            ctx.violate('the mask of a box covers its pixels', dict(d, box=k))
                        if not np.array_equal(arr[b.slice], np.where(want[b.slice] == 1, arr[b.slice], -1)) or arr[b.slice].shape != tuple(h - l for h, l in zip(hi, lo)):
                            ctx.violate('the slice of a box selects its pixels', dict(d, box=k))
                        if not np.array_equal(arr, a0):
                            ctx.violate('masking leaves the array unchanged', d)
                for k in range(len(p['boxes']), len(bs)):      # a copy owns its material
                    bs[k].material.eps, bs[k].material.name, bs[k].eps = 77., 'edited', 77.
                    if any(b.material.eps == 77. or b.eps == 77. for b in bs[:k] + bs[k + 1:] if b is not bs[k]) or any(m.eps == 77. for m in mats.values()):
                        ctx.violate('copying never links two boxes', dict(d, copy=k))
                    bs[k].material.eps = bs[k].eps = 0.
        elif not r['tie']:
            ds, g = p['design'], p['g']
            d = dict(design={k: v for k, v in ds.items()}, shape=g['shape'][:2], sp=g['sp'][:2], unit=q)
            designs += 1
            ctx.count('behaviours'); ctx.count('designs'); ctx.sample(d)
            with Impl(ctx, 'block design', d):
                wg = Box(tuple(round(x * q, 9) for x in ds['wg']), material=mats[1], spacing=g['sp'][0] * q, min=(rng.choice([0., 3.]), 1.))
                blk = Box(tuple(round(x * q, 9) for x in ds['blk']), material=mats[2], spacing=g['sp'][0] * q, min=(2., rng.choice([0., 5.]))) if ds['hasblk'] else None
                blk0 = (blk.min, blk.size) if blk else None
                grid = Grid((g['shape'][0] * g['sp'][0] * q, g['shape'][1] * g['sp'][1] * q), tuple(s * q for s in g['sp'][:2]), 7.)
                sep = tuple(round(x * q, 9) for x in ds['sep'])
                if sep[0] == sep[1]:
                    sep = sep[0]
                ret = grid.block_design(wg, wg_height=ds['wgh'] * q if ds['wgh'] else None, sub_eps=3., sub_height=ds['sub'] * q, gap=ds['gap'] * q,
                                        block=blk, sep=sep, vertical=ds['vertical'], rib_y=ds['rib'] * q)
                want = np.array([MATS.get(x, 7.) for x in r['eps']]).reshape(g['shape'][:2])
                if ret is not grid:
                    ctx.violate('a block design returns the grid', d)
                if not np.array_equal(grid.eps, want):
                    ctx.violate('a block design places waveguides, gap and blocks as requested', dict(d, got=grid.eps, want=want))
                if blk and (blk.min, blk.size) != blk0:
                    ctx.violate('a block design leaves the block it was given where it was', d)
        if ctx.full:
            return
    if designs < 20:
        from harness.core import MachineryError
        raise MachineryError(f'only {designs} tie-free designs')
