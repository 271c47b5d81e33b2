"""Shared machinery: running TLC, decoding its exact values, reporting verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, atexit, traceback
import math

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class SpecViolation(Exception):
    """TLC reports that the specification itself breaks one of its invariants."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vchk_')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_run = [0]
TLC_STATS = []


def tlc(module, plan=None, spec='Spec', init=None, next_=None, invariants=(), properties=(), constants=None,
        workers=8, simulate=None, depth=100, seed=1, timeout=600, constraint=None, postcondition=None,
        deadlock=False, coverage=False, env=None, heap='4g', expect_violation=False, view=None):
    """Run TLC on spec/<module>.tla and return (emitted records, stats)."""
    _run[0] += 1
    d = os.path.join(scratch(), f'tlc{_run[0]}_{os.getpid()}')
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if plan is not None:
        with open(os.path.join(d, 'plan.json'), 'w') as fh:
            json.dump(plan, fh)
        e['PLAN'] = os.path.join(d, 'plan.json')
    e.update(env or {})
    cfg = []
    if init:
        cfg += [f'INIT {init}', f'NEXT {next_}']
    else:
        cfg += [f'SPECIFICATION {spec}']
    for k, v in (constants or {}).items():
        cfg.append(f'CONSTANT {k} = {v}')
    cfg += [f'INVARIANT {i}' for i in invariants] + [f'PROPERTY {p}' for p in properties]
    if constraint:
        cfg.append(f'CONSTRAINT {constraint}')
    if view:
        cfg.append(f'VIEW {view}')
    if postcondition:
        cfg.append(f'POSTCONDITION {postcondition}')
    cfg.append(f'CHECK_DEADLOCK {"TRUE" if deadlock else "FALSE"}')
    with open(os.path.join(d, 'M.cfg'), 'w') as fh:
        fh.write('\n'.join(cfg) + '\n')
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', TLAJARS, 'tlc2.TLC', '-config', 'M.cfg',
           '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE']
    if simulate:
        cmd += ['-simulate', f'num={simulate}', '-depth', str(depth), '-seed', str(seed)]
    if coverage:
        cmd += ['-coverage', '1']
    cmd.append(module + '.tla')
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise MachineryError(f'TLC timed out on {module}')
    out = r.stdout
    recs, other = [], []
    for line in out.split('\n'):
        (recs if line.startswith('"@@') else other).append(line)
    recs = [json.loads(json.loads(line)[2:]) for line in sorted(recs)]      # TLC's workers print in any order
    txt = '\n'.join(other)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', txt)
    stats = {'module': module, 'seconds': round(time.time() - t0, 2), 'emitted': len(recs)}
    if m:
        stats['states_generated'], stats['distinct_states'] = (int(x.replace(',', '')) for x in m[-1])
    m = re.findall(r'The number of states generated: ([\d,]+)', txt)
    if m:
        stats['states_generated'] = int(m[-1].replace(',', ''))
    stats['invariants'] = list(invariants) + list(properties)
    TLC_STATS.append(stats)
    bad = re.search(r'(Invariant \S+ is violated|Action property \S+ is violated|Temporal properties were violated|'
                    r'property \S+ .*violated)', txt)
    shutil.rmtree(d, ignore_errors=True)
    if bad:
        if expect_violation:
            return recs, dict(stats, violation=bad.group(0), text=txt)
        raise SpecViolation(f'{module}: {bad.group(0)}\n' + txt[-3000:])
    if r.returncode != 0 or ('Error:' in txt):
        txt = '\n'.join(x for x in txt.split('\n') if not x.startswith(('Attempted to apply', 'public static', 'but it produced')))
        i = txt.find('Error:')
        raise MachineryError(f'TLC failed on {module} (rc {r.returncode}):\n' + (txt[i:i + 1500] if i >= 0 else '') + '\n...\n' + txt[-1500:])
    return recs, stats


# ---------------------------------------------------------------- exact values
W = complex(math.sqrt(.5), math.sqrt(.5))


def dec(x):
    """ring element -> complex"""
    a, b, c, d, k2, k5 = x
    r = math.sqrt(.5)
    return complex(a + (b - d) * r, c + (b + d) * r) / (2 ** k2 * 5 ** k5)


def decm(m):
    import numpy as np
    return np.array([[dec(x) for x in row] for row in m])


def decv(v):
    import numpy as np
    return np.array([dec(x) for x in v])


# ---------------------------------------------------------------- verdicts
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.rng = random.Random(f'{pid}-{seed}')
        self.violations = []
        self.cover = {}
        self.cases = 0
        self.known_hit = []
        self.t0 = time.time()
        self.notes = []
        self.known = load_known(pid)

    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n
        self.cases += n

    def violate(self, clause, detail, key=None):
        """Report one violated clause; `key` identifies it for known findings."""
        key = key or clause
        for k in self.known:
            if re.fullmatch(k['key'], key):
                if k['key'] not in [h['key'] for h in self.known_hit]:
                    self.known_hit.append(k)
                return
        self.violations.append({'clause': clause, 'key': key, 'detail': detail})

    @property
    def full(self):
        return len(self.violations) >= 20


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid:
                    out.append(d)
    return out


def jsonable(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            o = o.tolist()
        elif isinstance(o, np.generic):
            o = o.item()
    except Exception:
        pass
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:500]


def finish(ctx, meta):
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    replay = None
    if ctx.violations:
        rc = 1
        replay = os.path.join(EVID, f'{ctx.pid}.violation.json')
        with open(replay, 'w') as fh:
            json.dump(jsonable({'property': ctx.pid, 'seed': ctx.seed, 'tier': ctx.tier,
                                'rerun': f'VERIF_SEED={ctx.seed} VERIF_TIER={ctx.tier} bin/check {ctx.pid}',
                                'violations': ctx.violations[:20]}), fh, indent=1)
    write_evidence(ctx, meta, rc)
    for k in ctx.known_hit:
        print(f'KNOWN-FINDING: property={ctx.pid} {k["what"]}')
    seen = set()
    for v in ctx.violations:
        if v['clause'] not in seen:
            seen.add(v['clause'])
            print('  clause:', v['clause'], '|', json.dumps(jsonable(v['detail']))[:600])
    print(f'{ctx.pid} {ctx.tier}: {ctx.cases} cases, {len(ctx.violations)} violations, {time.time()-ctx.t0:.1f}s')
    if rc:
        print(f'VIOLATION property={ctx.pid} replay={replay}')
    return rc


def write_evidence(ctx, meta, rc):
    states = sum(s.get('distinct_states', s.get('states_generated', 0)) for s in TLC_STATS)
    trans = sum(s.get('states_generated', 0) for s in TLC_STATS)
    cov = {
        'states': states, 'transitions': trans,
        'traces_validated_against_impl': ctx.cover.get('behaviours', ctx.cases),
        'evaluations': ctx.cases,
        'by_kind': ctx.cover,
        'tlc_runs': TLC_STATS,
        'samples': jsonable(ctx.samples[:4]),
        'rule': meta.get('rule', ''),
        'notes': ctx.notes,
        'known_findings_hit': [k['key'] for k in ctx.known_hit],
    }
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': meta.get('level', 'model_checking'),
          'coverage': cov, 'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - ctx.t0, 2),
          'violations': len(ctx.violations)}
    with open(os.path.join(EVID, f'{ctx.pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)


Ctx.samples = None


def _sample(self, s):
    if self.samples is None:
        self.samples = []
    if len(self.samples) < 4:
        self.samples.append(s)


Ctx.sample = _sample


class Impl:
    """Context manager: an exception escaping the implementation is a violation of `clause`."""

    def __init__(self, ctx, clause, detail=None, key=None):
        self.ctx, self.clause, self.detail, self.key = ctx, clause, detail, key

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, Exception) and not issubclass(et, (MachineryError, SpecViolation)):
            fr = traceback.extract_tb(tb)
            self.ctx.violate(self.clause + ': raises', {'exception': f'{et.__name__}: {ev}'[:300],
                             'at': [f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in fr[-3:]],
                             'case': self.detail}, key=self.key)
            return True
        return False


def close(a, b, tol):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not np.all(np.isfinite(a)):
        return False
    return bool(np.max(np.abs(a - b), initial=0) <= tol)


def err(a, b):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f'shape {a.shape} vs {b.shape}'
    return float(np.max(np.abs(a - b), initial=0))


def crashed(rc, log, pid, tier=None):
    """the process of a check was ended by a fault in native code called by the implementation"""
    import importlib
    ctx = Ctx(pid, tier or os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1') or 1))
    ctx.samples = []
    lines = [x.rstrip() for x in open(log, errors='replace').read().split('\n')]
    at = next((k for k, x in enumerate(lines) if x.startswith('Fatal Python error')), 0)
    frames = [x.strip() for x in lines[at:] if x.strip().startswith('File ')]
    if not any('/simphox/' in x for x in frames):
        print('MACHINERY the check crashed outside the implementation', rc, frames[:6])
        return 3
    ctx.count('crashes')
    ctx.violate('the implementation crashes the process', {'exit': rc, 'error': lines[at][:200], 'at': frames[:8]})
    return finish(ctx, importlib.import_module(f'harness.checks.{pid.lower()}').META)


def watch(ctx, meta, seconds=840, stuck=400):
    """before the time allowed for a check runs out, report what was found; a single call that has kept
    the implementation busy for `stuck` seconds (they take a few) does not return"""
    import threading
    main = threading.main_thread().ident

    def loop():
        last, since = None, time.time()
        while True:
            time.sleep(2)
            f, outer = sys._current_frames().get(main), None
            names = []
            while f is not None:
                if '/simphox/' in f.f_code.co_filename:
                    outer = f
                    names.append(f'{os.path.basename(f.f_code.co_filename)}:{f.f_lineno} {f.f_code.co_name}')
                f = f.f_back
            if outer is not last:
                last, since = outer, time.time()
            hang = last is not None and time.time() - since > stuck
            if hang or time.time() - ctx.t0 > seconds:
                if hang:
                    ctx.violate('the implementation does not return', {'at': names[:6], 'seconds': int(time.time() - since)})
                rc = finish(ctx, meta) if ctx.violations else 3
                if rc == 3:
                    print('MACHINERY out of time', names[:4])
                sys.stdout.flush()
                os._exit(rc)
            del f, outer
    threading.Thread(target=loop, daemon=True).start()


def main(argv):
    if argv[1] == '--crashed':
        return crashed(int(argv[2]), argv[3], *argv[4:6])
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import importlib
    import warnings
    warnings.filterwarnings('ignore')
    mod = importlib.import_module(f'harness.checks.{pid.lower()}')
    ctx = Ctx(pid, tier, seed)
    ctx.samples = []
    if tier == 'quick':
        watch(ctx, mod.META)
    try:
        mod.run(ctx)
    except (MachineryError, SpecViolation) as e:
        if ctx.violations:      # the implementation already misbehaved; report that
            print('note: stopped early:', str(e)[:500])
        else:
            print('MACHINERY', str(e))
            return 3
    except Exception as e:
        traceback.print_exc()
        repo = [f for f in traceback.extract_tb(e.__traceback__) if '/simphox/' in f.filename]
        if repo:
            ctx.violate('the implementation raises', {'exception': repr(e)[:300], 'at': f'{repo[-1].filename}:{repo[-1].lineno}'})
        elif not ctx.violations:
            print('MACHINERY', repr(e))
            return 3
    return finish(ctx, mod.META)


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    from harness import core      # one instance of this module, shared with the checks
    sys.exit(core.main(sys.argv))
