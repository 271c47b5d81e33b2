"""C08: programming a copy by the null basis reproduces the circuit up to output phases."""
import copy
import numpy as np
from harness.core import Impl, tlc, decm, close, err
from harness import circuits as cz
from harness.checks.c01 import INV

META = dict(level='model_checking', technique='TLA+ (Light.tla) exact transfer of the source circuit as the oracle for circuits programmed from its null basis',
            note='TLC computes the exact transfer of each sampled circuit (including bar / cross states and unequal splitter errors); copies with other settings and with other correctable errors, programmed from the null basis read off the real circuit, must have that transfer up to one phase per output rail, and the source must be unchanged. Seeded sample of an exact alphabet; tolerance 2e-4.',
            rule='one behaviour per source circuit, several programmed copies per source',
            assumptions=['lossless circuits', 'symmetric phase style is rejected by the library', 'splitters with exactly zero or total coupling (no programmable ratio at all) excluded'])


def same_up_to_output_phases(A, M, tol):
    """A = diag(phases) M row by row"""
    if A.shape != M.shape or not np.all(np.isfinite(A)):
        return False
    for a, m in zip(A, M):
        k = int(np.argmax(np.abs(m)))
        if abs(abs(a[k]) - abs(m[k])) > tol or abs(a[k]) < 1e-9:
            return False
        if np.max(np.abs(a * (m[k] / a[k]) * (abs(a[k]) / abs(m[k])) - m)) > tol:
            return False
    return True


def run(ctx):
    rng = ctx.rng
    np.random.seed(ctx.seed)
    cs = []
    styles = ['top', 'bottom', 'differential']
    for rep in range(5 if ctx.quick else 30):
        for arch in cz.ARCHS + ['random', 'random', 'random']:
            for style in styles:
                n = rng.choice([2, 3, 4, 5, 6] if ctx.quick else [2, 3, 4, 5, 6, 7, 8])
                if arch == 'embedded':
                    n = max(n, 3)
                with Impl(ctx, 'building a circuit', dict(arch=arch, n=n, style=style)):
                    c = cz.make_case(rng, arch, n, style, rng.choice(['none', 'none', 'sym', 'asym']), 'none', ctx, 0, False,
                                     phases=rng.choice(['mixed', 'mixed', 'om']), extreme=False)
                    if c:
                        cs.append(c)
    recs, _ = tlc('Light', [c['plan'] for c in cs], invariants=INV, timeout=800)
    assert len(recs) == len(cs)
    for r in recs:
        c = cs[r['ci'] - 1]
        n, mesh, d = c['n'], c['mesh'], c['desc']
        M = decm(r['fwd'][-1])[:, :n]
        N = len(c['nodes'])
        ctx.count('behaviours'); ctx.sample(dict(d, theta=c['st'].theta, phi=c['st'].phi, transfer=M))
        before = mesh.params
        errs0 = [tuple(x.bs_error) for x in mesh.nodes]
        with Impl(ctx, 'reading the null basis', d):
            basis = mesh.nullification_basis
            b0 = np.array(basis).copy()
            if basis.shape != (c['ncols'], n):
                ctx.violate('one null vector per column', dict(d, got=basis.shape))
            if any(not np.array_equal(a, b) for a, b in zip(before, mesh.params)) or errs0 != [tuple(x.bs_error) for x in mesh.nodes] \
                    or not close(mesh.matrix(), M, 3e-5):
                ctx.violate('reading the null basis leaves the circuit unchanged', d)
            # required split ratios of the source
            by = sorted(c['nodes'], key=lambda nd: nd['id'])
            l, rr = np.array([nd['err'] for nd in by]).T + np.pi / 4
            cs_, sc_ = np.cos(rr) * np.sin(l), np.sin(rr) * np.cos(l)
            th = c['st'].theta
            s = cs_ ** 2 + sc_ ** 2 + 2 * cs_ * sc_ * np.cos(th)
            # a copy with other phases
            for kind in ('same couplers', 'other errors', 'other errors, unequal', 'deepcopy'):
                if kind == 'same couplers':
                    cp = cz.build(c['nodes'], n, d['style'])
                elif kind == 'deepcopy':
                    cp = copy.deepcopy(mesh)
                    if rng.random() < .5:
                        cp.params = tuple(np.random.rand(x.size) * 6 for x in mesh.params)
                else:
                    eps = [rng.uniform(-.12, .12) for _ in range(N)]
                    eps2 = eps if kind == 'other errors' else [e + rng.choice([0, rng.uniform(-.05, .05)]) for e in eps]
                    cp = cz.build([dict(nd, err=(eps[nd['id']], eps2[nd['id']])) for nd in c['nodes']], n, d['style'])
                    hi = np.cos(np.array(eps) + np.array(eps2)) ** 2
                    lo = np.sin(np.array(eps) - np.array(eps2)) ** 2
                    if not np.all((s <= hi - 1e-3) & (s >= np.where(lo < 1e-12, -1, lo + 1e-3))):
                        ctx.count('uncorrectable (skipped)')
                        continue
                cp.program_by_null_basis(basis)
                ctx.count('programmed copies')
                dd = dict(d, copy=kind)
                A = cp.matrix()
                if not same_up_to_output_phases(A, M, 1e-3):
                    ctx.violate('a copy programmed by the null basis has the same transfer up to output phases', dict(dd, got=A, want=M))
                if not np.array_equal(basis, b0):
                    ctx.violate('programming leaves the null basis unchanged', dd)
                if any(not np.array_equal(a, b) for a, b in zip(before, mesh.params)):
                    ctx.violate('programming a copy leaves the source unchanged', dd)
        if ctx.full:
            return
