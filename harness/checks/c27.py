"""C27: simulations and component models built from layouts represent exactly those layouts."""
import os
import sys
import numpy as np
from harness.core import Impl, tlc, scratch
from harness import core

META = dict(level='model_checking', technique='TLA+ (Layout.tla over Cells.tla): the construction of a simulation from a layout as a history of steps, with the finished stack in closed form, and the experiments of a component model in order; replayed through from_pattern and Component.from_fdfd',
            note='TLC builds seeded layouts (planes and volumes, unequal pixels, with and without substrate, rib, partial heights) step by step, proves the closed form of the stack, that a pattern only changes what it covers and that every (wavelength, input) has one experiment; the real frequency- and time-domain simulations must have these permittivities, ports and settings, patterns leaving the grid must be refused, and every entry of a component model must be the scattering parameter measured in a simulation of its own built from TLC\'s permittivity.',
            rule='one behaviour per layout',
            assumptions=['dphox is not installed: a stand-in package with the documented attributes (size, bounds, mask, port) takes its place',
                         'scattering parameters of single simulations are decided by C21'])


class FakePort:
    def __init__(self, x, y, a, w):
        self.x, self.y, self.a, self.w = x, y, a, w
        self.xya = (x, y, a)


class FakePattern:
    def __init__(self, mask, size, bounds, ports):
        self._m, self.size, self.bounds, self.port = mask, size, bounds, ports

    def mask(self, shape, spacing):
        out = np.zeros(tuple(shape))
        for i, j in self._m:
            out[i, j] = 1
        return out


def stand_in():
    """an importable package in the place of dphox"""
    d = os.path.join(scratch(), 'standin')
    os.makedirs(os.path.join(d, 'dphox'))
    for f, t in (('__init__', ''), ('pattern', 'class Pattern:\n    pass\n'), ('device', 'class Device:\n    pass\n')):
        with open(os.path.join(d, 'dphox', f + '.py'), 'w') as fh:
            fh.write(t)
    sys.path.insert(0, d)


def layout(rng, model):
    """lengths in integer units; a layout either only built or also made a component model of"""
    if model:
        sp = [rng.choice([4, 5]), rng.choice([4, 5]), 4]
        n = [rng.choice([15, 16, 18]), rng.choice([14, 16, 17])]
        bd = [rng.choice([2, 3]), rng.choice([2, 3])]
        wd = rng.choice([3, 4])
        j0 = rng.randint(bd[1] + 1, n[1] - bd[1] - wd - 1)
        mask = {(i, j) for i in range(n[0]) for j in range(j0, j0 + wd)}
        yc = (2 * j0 + wd) * sp[1] // 2
        ports = [dict(x=3 * sp[0], y=yc, a=180, w=wd * sp[1]), dict(x=(n[0] - 3) * sp[0], y=yc, a=0, w=wd * sp[1])]
        if rng.random() < .6:
            i0 = rng.randint(5, n[0] - 6 - wd)
            up = rng.random() < .5
            mask |= {(i, j) for i in range(i0, i0 + wd) for j in (range(j0, n[1]) if up else range(0, j0 + 1))}
            ports.append(dict(x=(2 * i0 + wd) * sp[0] // 2, y=(n[1] - 2) * sp[1] if up else 2 * sp[1], a=90 if up else 270, w=wd * sp[0]))
        mask ^= {(rng.randint(6, n[0] - 7), rng.randint(2, n[1] - 3)) for _ in range(3)}
        rng.shuffle(ports)
        l = dict(height=0, sub=0, rib=0, zmin=-1, t=0, core=rng.choice([9, 12]), clad=rng.choice([1, 2]), bg=rng.choice([1, 3]), nwl=rng.choice([2, 3]))
    else:
        vol = rng.random() < .7
        sp = rng.choice([[4, 4, 4], [4, 8, 6], [6, 4, 8], [8, 6, 4]])
        big = rng.random() < .25          # large enough for absorbing layers
        n = [rng.randint(10, 11), rng.randint(10, 11)] if big else [rng.randint(5, 7), rng.randint(5, 7)]
        bd = [rng.choice([0, 1, 2]), rng.choice([0, 1, 2])]
        nz = rng.randint(10, 11) if big else rng.randint(4, 6)
        mask = {(i, j) for i in range(n[0]) for j in range(n[1]) if rng.random() < .4}
        l = dict(height=nz * sp[2] if vol else 0, nwl=0, core=12, clad=2, bg=rng.choice([1, 3]))
        if vol:
            sub = rng.choice([0, 0, 1, 2]) * sp[2]
            rib = rng.choice([0, 1, 1, 2]) * sp[2]
            z = rng.choice([-1, 0, sp[2], 2 * sp[2]])
            l.update(sub=sub, rib=rib, zmin=z, t=rng.choice([1, 2]) * sp[2])
        else:
            l.update(sub=0, rib=0, zmin=-1, t=0)
        ports = [dict(x=rng.randint(0, n[0] * sp[0]), y=rng.randint(0, n[1] * sp[1]), a=rng.choice([0, 90, 180, 270, -90]), w=rng.choice([1, 2, 3]) * sp[0]) for _ in range(rng.choice([0, 1, 2, 3]))]
        if rng.random() < .1:
            mask = set()
    b = [(n[a] - 2 * bd[a]) * sp[a] for a in (0, 1)]
    return dict(l, sp=sp, b=b, bd=[bd[a] * sp[a] for a in (0, 1)], mask=sorted(map(list, mask)), ports=ports)


def run(ctx):
    stand_in()
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.grid import Port
    from simphox.circuit.component import Component
    rng = ctx.rng
    nb, nm = (160, 8) if ctx.quick else (1200, 60)
    plan = [layout(rng, False) for _ in range(nb)] + [layout(rng, True) for _ in range(nm)]
    recs, _ = tlc('Layout', plan, invariants=['Stack', 'Fits', 'Table', 'Emit'], properties=['OnlyPattern'], timeout=800)
    for r in recs:
        l = plan[r['pi'] - 1]
        q = .0625 if l['nwl'] else rng.choice([.25, .125, .0625, .1, .025])
        nd = 3 if l['height'] else 2
        names = rng.sample(['a0', 'b0', 'a1', 'b1', 'in', 'z9'], len(l['ports']))
        fp = {nm: FakePort(p['x'] * q, p['y'] * q, p['a'], p['w'] * q) for nm, p in zip(names, l['ports'])}
        pat = FakePattern(l['mask'], tuple(round(v * q, 9) for v in l['b']), (l['bd'][0] * q, l['bd'][1] * q, *(round((l['bd'][a] + l['b'][a]) * q - 1e-7, 9) for a in (0, 1))), fp)
        want = np.array(r['eps'], dtype=float).reshape(r['shape'][:nd])
        mat = {v: v for v in (l['core'], l['clad'], l['bg'])}
        if not l['nwl'] and rng.random() < .4:         # lossy materials
            for v in rng.sample(sorted(mat), rng.choice([1, 1, len(mat)])):
                mat[v] = np.complex128(v - rng.choice([.5, .25, 2]) * 1j)
            want = np.select([want == v for v in mat], list(mat.values()), np.nan)
        spacing = tuple(round(s * q, 9) for s in l['sp'][:nd])
        if len(set(spacing)) == 1 and rng.random() < .7:
            spacing = float(spacing[0])
        kw = dict(core_eps=mat[l['core']], clad_eps=mat[l['clad']], spacing=spacing, boundary=tuple(round(v * q, 9) for v in l['bd']), bg_eps=mat[l['bg']], height=round(l['height'] * q, 9))
        if nd == 3:
            kw.update(component_t=round(l['t'] * q, 9), sub_z=round(l['sub'] * q, 9), rib_t=round(l['rib'] * q, 9))
            if l['zmin'] >= 0:
                kw['component_zmin'] = round(l['zmin'] * q, 9)
        d = dict(layout={k: v for k, v in l.items() if k != 'mask'}, unit=q, ports=names, materials=mat)
        ctx.count('behaviours'); ctx.sample(dict(d, eps=r['eps'][:40]))
        if l['nwl']:
            with Impl(ctx, 'a component model is made of a layout', d):
                component(ctx, rng, FDFD, Component, Port, pat, kw, l, r, names, want, q, d)
        else:
            for kind in ('fdfd', 'fdtd'):
                dd = dict(d, simulation=kind)
                pml = rng.choice([None, tuple(4 * s * q for s in l['sp'][:nd])])
                if min(r['shape'][:nd]) < 10:
                    pml = None
                with Impl(ctx, 'a simulation is built from a layout', dd):
                    nm = rng.choice(['x', 'chip'])
                    wl = rng.choice([1.55, 1.3, 2.])
                    sim = FDFD.from_pattern(pat, pml=pml, wavelength=wl, name=nm, **kw) if kind == 'fdfd' else FDTD.from_pattern(pat, pml=pml, name=nm, **kw)
                    built(ctx, sim, pat, kw, l, r, names, want, q, dd, nd, pml, kind, wl, nm)
                # a pattern leaving the grid on any side is refused
                side = rng.randrange(4)
                b = list(pat.bounds)
                b[side] = -q if side < 2 else float((r['shape'][side - 2] * l['sp'][side - 2] + 1) * q)
                if rng.random() < .3:
                    b[0] = -q
                bad = FakePattern(l['mask'], pat.size, tuple(b), fp)
                refused = False
                with Impl(ctx, 'patterns leaving the grid are refused as such', dict(dd, bounds=b)):
                    try:
                        (FDFD.from_pattern(bad, pml=None, wavelength=1.55, **kw) if kind == 'fdfd' else FDTD.from_pattern(bad, pml=None, **kw))
                    except ValueError:
                        refused = True
                    ctx.count('refusals')
                    if not refused:
                        ctx.violate('patterns leaving the grid are refused', dict(dd, bounds=b))
        if ctx.full:
            return


def ports_ok(sim, names, r, l, q):
    if list(sim.port) != names:
        return False
    for nm, p in zip(names, r['ports']):
        g = sim.port[nm]
        if not np.allclose((g.x, g.y, g.a, g.w, g.z, g.h), (p['x'] * q, p['y'] * q, p['a'], p['w'] * q, p['z2'] * q / 2, p['h'] * q)):
            return False
    return True


def built(ctx, sim, pat, kw, l, r, names, want, q, d, nd, pml, kind, wl, nm):
    if not (np.shape(sim.eps) == want.shape and np.array_equal(np.asarray(sim.eps), want)):
        ctx.violate('the permittivity is exactly the layout', dict(d, shape=list(np.shape(sim.eps)), expected=list(want.shape), got=np.asarray(sim.eps), want=want))
    if not ports_ok(sim, names, r, l, q):
        ctx.violate('the ports of the layout are the ports of the simulation', dict(d, got=repr(sim.port)))
    if list(sim.components) != [pat]:
        ctx.violate('a built simulation knows its layout', d)
    if not (np.allclose(sim.spacing, [s * q for s in l['sp'][:nd]]) and sim.name == nm and (kind != 'fdtd' or True)):
        ctx.violate('a built simulation has the requested settings', dict(d, spacing=sim.spacing, name=sim.name))
    if kind == 'fdfd' and not np.isclose(sim.k0, 2 * np.pi / wl):
        ctx.violate('a built simulation has the requested settings', dict(d, k0=sim.k0, wavelength=wl))
    got = None if sim.pml_shape is None else tuple(int(x) for x in sim.pml_shape)[:nd]
    if got != (None if pml is None else (4,) * nd):
        ctx.violate('a built simulation has the requested absorbing layers', dict(d, got=got, pml=pml))


def component(ctx, rng, FDFD, Component, Port, pat, kw, l, r, names, want, q, d):
    nwl = l['nwl']
    wls = sorted(rng.sample([1.3, 1.45, 1.55, 1.7, 2.1, 2.6], nwl), key=lambda x: rng.random())
    pml = tuple(4 * s * q for s in l['sp'][:2])
    fac = rng.choice([2, 3])
    kw = {k: v for k, v in kw.items()}
    lab = {} if rng.random() < .25 else dict(in_ports=list(names), out_ports=list(names))
    bar = dict(pbar=lambda x: x) if rng.random() < .3 else {}
    comp = Component.from_fdfd(pat, wavelengths=list(wls), pml=pml, name='part', profile_size_factor=fac, **lab, **bar, **kw)
    m = comp.model
    if comp.structure is not pat or comp.name != 'part':
        ctx.violate('a component knows its layout and name', d)
    n = len(names)
    if tuple(m.dims) != ('wavelengths', 'in_ports', 'out_ports') or m.shape != (nwl, n, n):
        ctx.violate('a component model has one entry per wavelength, input and output', dict(d, dims=m.dims, shape=m.shape))
        return
    if not np.allclose(m.coords['wavelengths'], wls) or (lab and (list(m.coords['in_ports'].values) != names or list(m.coords['out_ports'].values) != names)):
        ctx.violate('a component model is labelled with its wavelengths and ports', dict(d, coords=repr(m.coords)[:300]))
    got = np.asarray(m.values)
    for w, i in r['rows']:
        sim = FDFD(tuple(n_ * s * q for n_, s in zip(want.shape, l['sp'])), tuple(s * q for s in l['sp'][:2]), eps=want.copy(), wavelength=wls[w - 1], pml=pml)
        sim.port = {nm: Port(p['x'] * q, p['y'] * q, p['a'], p['w'] * q, p['z2'] * q / 2, p['h'] * q) for nm, p in zip(names, r['ports'])}
        f = sim.solve(sim.port_source({(names[i - 1], 0): 1}, profile_size_factor=fac))
        o, s = sim.get_measure_fn([(x, 0) for x in names], profile_size_factor=fac)(f)
        ref = np.asarray(o) / np.asarray(s)[i - 1]
        ctx.count('experiments')
        if not np.max(np.abs(got[w - 1, i - 1] - ref)) <= 1e-6 * max(1, np.max(np.abs(ref))):
            ctx.violate('entries of a component model are the scattering parameters of their own experiment', dict(d, wavelength=wls[w - 1], source=names[i - 1], got=got[w - 1, i - 1], expected=ref))
            return
