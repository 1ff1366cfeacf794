"""C07, C10-C13: estimates from displacement observations."""
import collections
import numpy as np
import gen
from drive import *
from kinisi.diffusion import Bootstrap, MSDBootstrap, MSTDBootstrap, MSCDBootstrap
import pipeline_checks as P

BOOT = dict(msd=MSDBootstrap, mstd=MSTDBootstrap, mscd=MSCDBootstrap)
DIMS = ['x', 'y', 'z', 'xy', 'xz', 'yz', 'xyz', 'X', 'Y', 'Z', 'XY', 'Xz', 'yZ', 'XYZ']

def data(kind, dts, disp, nos, dim='xyz', sub=1, block=False, boot=False, charge=1):
    n = int(np.asarray(disp[0]).shape[0])
    q = nums(charge) if np.ndim(charge) else [num(charge)] * n
    return dict(kind=kind, dim=dim, sub=sub, block=block, boot=boot, charge=q, dts=nums(dts), nos=nums(nos),
                D=[[[nums(v) for v in a] for a in np.asarray(x)] for x in disp])

EMPTY = dict(err='', msg='', dt=[], n=[], v=[], s=[], no=[], no2=[], ngp=[], dr=[], bn=[], bv=[], bs=[], samples=[], ngpmax='none')

def samples_of(ds):
    return [nums(np.asarray(x['samples'] if isinstance(x, dict) else x.samples)) for x in (ds or [])]

def from_diff_dict(d):
    return dict(EMPTY, dt=nums(d['dt']), n=nums(d['n']), v=nums(d['v']), s=nums(d['s']), no=nums(d['n_o']), ngp=nums(d['ngp']),
                dr=[nums(np.sort(np.asarray(x['samples'], dtype=float))) for x in d['euclidian_displacements']],
                bn=nums(d['n_bootstrap']), bv=nums(d['v_bootstrap']), bs=nums(d['s_bootstrap']),
                samples=samples_of(d['distributions']), no2=nums(d['n_o']))

VALUE = dict(msd=('msd', 'msd_std'), mstd=('mstd', 'mstd_std'), mscd=('mscd', 'mscd_std'))

def observe_boot(b):
    """A bootstrap object: what its properties say (and its dictionary for what has no property)."""
    d = b.to_dict()
    o = from_diff_dict(d)
    o.update(dt=nums(b.dt), n=nums(b.n), v=nums(b.v), s=nums(b.s), ngp=nums(b.ngp), no=nums(b.n_i), no2=nums(d['n_o']),
             dr=[nums(np.sort(np.asarray(x.samples, dtype=float))) for x in b.euclidian_displacements])
    return o

def observe_analysis(a, kind):
    o = from_diff_dict(a.to_dict()['diff'])
    o.update(dt=nums(a.dt), n=nums(getattr(a, VALUE[kind][0])), s=nums(getattr(a, VALUE[kind][1])),
             dr=[nums(np.sort(np.asarray(x.samples, dtype=float))) for x in a.dr])
    if len(o['dt']):
        o['ngpmax'] = num(a.ngp_max)
    return o

def analysis_record(a, kind, label, charge=1, dim='xyz', sub=1, block=False, boot=False, rt=None):
    d = a.to_dict()
    f32 = np.asarray(d['disp_3d'][0]).dtype == np.float32
    return dict(label=label, d=data(kind, d['delta_t'], d['disp_3d'], d['n_o'], dim, sub, block, boot, charge),
                obs=observe_analysis(a, kind), rt=rt or ('2e-4' if f32 else '1e-9'), at='2e-4' if f32 else '1e-11')

def judge_estimates(ctx, est, clauses=None):
    ctx.judge('Trace_Estim', [analysis_record(x['obj'], x['kind'], x['label'], x['charge'], **x.get('opts', {})) for x in est], clauses)

# ---------------------------------------------------------------------------------------- generators
def random_disp(rng, N=None, K=None, n=None, style='walk'):
    """Synthetic observation arrays as the parsers give them. Returns delta_t, disp_3d, n_o."""
    N = N or int(rng.integers(1, 6)); n = n or int(rng.integers(4, 14))
    if style == 'walk':
        x = np.round(np.cumsum(rng.normal(size=(N, n, 3)), axis=1), 5)
        ks = np.unique(np.linspace(1, n, K or n, dtype=int))
        disp = [np.concatenate([x[:, None, k - 1], x[:, k:] - x[:, :-k]], axis=1) for k in ks]
        no = np.array([N * n / k for k in ks])
        keep = [i for i, k in enumerate(ks) if N * (-(-(n - k + 1) // k)) > 1]
        ts = float(rng.choice([1.0, 0.1, 0.002]))
        return ks * ts, [disp[i] for i in keep], no[keep]
    m = K or int(rng.integers(1, 7))
    # longer intervals never have more observations
    disp = [np.round(rng.normal(size=(N, int(o), 3)), 5) for o in sorted(rng.integers(1, 12, m), reverse=True)]
    if disp[0].shape[1] < 2:
        disp[0] = np.round(rng.normal(size=(N, 4, 3)), 5)
    if N == 1:
        disp = [d if d.shape[1] > 1 else np.round(rng.normal(size=(1, 3, 3)), 5) for d in disp]
    return np.cumsum(rng.uniform(0.1, 2, m)), disp, np.round(rng.uniform(1.5, 9, m), 3) * N

def charges(rng, N):
    m = int(rng.integers(9))
    if m == 8: return float(rng.choice([0.013, -0.04, 1e-6, 250.0])) if rng.random() < 0.5 else np.round(rng.uniform(-0.05, 0.05, N), 4)
    if m == 0: return 1
    if m == 7: return np.zeros(N) if rng.random() < 0.3 else [0] * (N - 1) + [-1]
    if m == 1: return -2.5
    if m == 2: return int(3)
    if m == 3: return np.round(rng.uniform(-3, 3, N), 2)
    if m == 4: return [float(x) for x in rng.choice([1, -1, 2], N)]
    if m == 5: return np.where(np.arange(N) % 2, -1.0, 1.0)
    q = np.zeros(N); q[int(rng.integers(N))] = 1.5
    return q

def boot_record(rng, kind, dt, disp, no, label, via=None, **o):
    """Runs a bootstrap class on given arrays; via: optional transformation of the object (round trips)."""
    args = dict(dimension=o.get('dim', 'xyz'))
    if args['dimension'] == 'xyz' and coin('dimension', label):
        del args['dimension']
    args = show(args, label)
    for k, name in (('sub', 'sub_sample_dt'), ('block', 'block'), ('boot', 'bootstrap')):
        if o.get(k):
            args[name] = o[k]
    if o.get('boot'):
        args.update(n_resamples=o.get('nres', 25), max_resamples=o.get('maxres', 25), random_state=np.random.RandomState(int(rng.integers(2**31))))
    q = o.get('charge', 1)
    pos = (dt, disp, q, no) if kind == 'mscd' else (dt, disp, no)
    b, err, msg, w = attempt(BOOT[kind], *pos, **args)
    rec = dict(label=label, d=data(kind, dt[:len(disp)], disp, no, o.get('dim', 'xyz'), o.get('sub', 1), o.get('block', False), bool(o.get('boot')), q),
               rt=o.get('rt', '1e-9'), at=o.get('at', '1e-11'))
    if err:
        rec['obs'] = dict(EMPTY, err=err, msg=msg)
        return rec
    if via:
        b, err, msg, w = attempt(via, b)
        if err:
            rec['obs'] = dict(EMPTY, err=err, msg=msg)
            return rec
    rec['obs'] = observe_boot(b)
    return rec

def fair(disp, block, kind='msd'):
    """Blocking needs data that vary."""
    return not block or all(np.var(x) > 1e-6 for x in disp)

# ---------------------------------------------------------------------------------------- C10, C11
def estimates(ctx, kinds, clauses):
    rng = ctx.rng
    scen = ctx.model('MC_Estim')
    if ctx.thorough:
        ctx.model_later('MC_Estim', 'MC_Estim_big.cfg')
    recs = []
    # model data: one scenario per interval
    order = rng.permutation(len(scen))[:ctx.size(480, len(scen))]
    for b in range(0, len(order), 8):
        part = [scen[i] for i in order[b:b + 8]]
        q = part[0][1]
        disp = [np.array(s[0], dtype=float) for s in part if s[1] == q]
        disp = [x for x in disp if np.any(x)]
        if len(disp) < 2:
            continue
        kind = kinds[(b // 8) % len(kinds)]
        dim = DIMS[int(rng.integers(len(DIMS)))]
        ax = [i for i in range(3) if 'xyz'[i] in dim.lower()]
        disp = [x for x in disp if np.any(x[:, :, ax])]
        if len(disp) < 2:
            continue
        recs.append(boot_record(rng, kind, np.arange(1, len(disp) + 1) * 1.0, disp, np.full(len(disp), 4.0), dict(kind=kind, model=True, dim=dim, q=q),
                                dim=dim, charge=np.array(q, dtype=float)))
    for k in range(ctx.size(110, 900)):
        kind = kinds[k % len(kinds)]
        N = int(rng.integers(1, 6)) if kind != 'x' else 2
        dt, disp, no = random_disp(rng, N, style='walk' if k % 3 else 'free')
        if k % 11 == 10:
            N = 2
            dt, disp, no = random_disp(rng, N, n=40, style='walk')
        if k % 60 == 5:             # many observations per interval
            N = 3
            dt, disp, no = random_disp(rng, N, n=int(rng.integers(180, 200)), K=4, style='walk')
            dt, disp, no = dt[:2], disp[:2], no[:2]
        if k % 8 == 4:              # very small and very large displacements
            f = float(rng.choice([1e-6, 1e-4, 1e-3, 1e4]))
            disp = [x * f for x in disp]
        o = dict(dim=DIMS[int(rng.integers(len(DIMS)))], sub=int(rng.choice([1, 1, 2, 3])), block=bool(k % 4 == 3))
        if kind == 'mscd':
            o['charge'] = charges(rng, N)
        if o['block'] and kind == 'msd' and k % 8 == 3:
            # slowly varying data make the blocking choose a level
            x = np.round(np.cumsum(rng.normal(size=(2, 40, 3)), axis=1), 4)
            dt, disp, no = np.array([1.0, 2.0]), [x, x[:, 1:]], np.array([20.0, 10.0])
        if not disp:
            continue
        if o['block'] and kind == 'mscd' and not np.any(o['charge']):
            o['block'] = False          # blocking needs data that vary
        recs.append(boot_record(rng, kind, dt, disp, no, dict(kind=kind, N=N, k=k, **{x: str(y) for x, y in o.items()}), **o))
    # through the analysis classes and their constructors
    est = []
    for k in range(ctx.size(15, 90)):
        kind, fmt = kinds[k % len(kinds)], P.FORMATS[k % 5]
        N, T = int(rng.integers(2, 5)), int(rng.integers(5, 11))
        S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
        c = dict(gen.base_case(), species=['Li'] * N, fwgiven=True, fw=[])
        o = dict(dim=DIMS[int(rng.integers(len(DIMS)))], sub=int(rng.choice([1, 1, 2])), block=bool(k % 7 == 6))
        kw = {}
        if kind == 'mscd':
            kw['ionic_charge'] = charges(rng, N)
            o['block'] = o['block'] and bool(np.any(kw['ionic_charge']))
        up = dict(dimension=o['dim'], sub_sample_dt=o['sub'], block=o['block'])
        obs, a = run_analysis(kind, fmt, MAKE[fmt](S, L, c['species']), parser_params(c, fmt), rng, up=up, **kw)
        if a is not None:
            est.append(dict(obj=a, kind=kind, label=dict(fmt=fmt, kind=kind, **{x: str(y) for x, y in o.items()}), charge=kw.get('ionic_charge', 1), opts=o))
        else:
            recs.append(dict(label=dict(fmt=fmt, kind=kind), d=data(kind, [1.0], [np.ones((1, 2, 3))], [1.0]), obs=dict(EMPTY, err=obs['err'], msg=obs['msg']), rt='1e-9', at='1e-9'))
    ctx.judge('Trace_Estim', recs, clauses)
    judge_estimates(ctx, est, clauses)
    ctx.notes['scenarios'] = len(order)

def c10(ctx):
    estimates(ctx, ['msd'], ('mean', 'variance', 'std', 'ngp', 'lengths', 'align'))

def c11(ctx):
    estimates(ctx, ['mstd', 'mscd'], ('mean', 'variance', 'std', 'ngp', 'lengths', 'align'))

# ---------------------------------------------------------------------------------------- C07
def c07(ctx):
    rng = ctx.rng
    ctx.model_later('MC_Intervals')
    ctx.model_later('MC_Combine')
    recs, est = [], []
    for k in range(ctx.size(100, 900)):
        T = int(rng.choice([3, 4, 6, 9, 13, 20, 33])); N = int(rng.choice([1, 2, 3, 4]))
        if k % 10 == 9:
            T, N = 140, 2
        c = dict(gen.base_case(), species=['Li'] * N)
        P.options(rng, c, T)
        if k % 4 == 0:
            c['subT'] = 1
            c['minset'] = c['maxset'] = False
            st = float(c['ts']) * c['skip']
            if k % 8 == 0 and T > 4:        # intervals that leave out the short or the long ones
                c.update(maxset=True, maxdt=P.rnd(int(rng.integers(2, T)) * st), minset=True, mindt=P.rnd(2 * st))
            c.update(kind='disp', disp=P.random_rows(rng, N, T), species=['Li'] * N, mode='index', idx=list(range(N)),
                     fwgiven=True, fw=[], lead=False)
            recs.append(P.record([c], run_base(c, rng), dict(kind='base', T=T, N=N), ivl=False))
            continue
        fmt = P.FORMATS[k % 5]
        if N > 2 and k % 3 == 0:
            c['species'] = ['Li'] * (N - 1) + ['O']
        if k % 6 == 1:          # more framework than there is left beside the mobile atoms
            c.update(fwgiven=True, fw=[int(x) for x in rng.permutation(N)[:int(rng.integers(1, N + 1))]])
        S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
        recs.append(P.parser_record(fmt, c, S, L, rng, dict(kind='file', T=T, N=N), ivl=False, analyzer=[None, 'msd', 'mstd', 'mscd'][k % 4]))
    for k in range(ctx.size(15, 90)):       # replicas, three classes
        kind, fmt = ['msd', 'mstd', 'mscd'][k % 3], P.FORMATS[k % 5]
        r = P.replica_case(rng, fmt, kind, 'identical', k, est)
        r['ivl'] = False
        recs.append(r)
    ctx.judge('Trace_Pipeline', P.buildable(recs), ('count',))
    boots = []
    for k in range(ctx.size(60, 500)):
        kind = ['msd', 'mstd', 'mscd'][k % 3]
        N = int(rng.integers(1, 6))
        dt, disp, no = random_disp(rng, N, style='walk' if k % 2 else 'free')
        o = dict(dim=DIMS[int(rng.integers(len(DIMS)))], sub=int(rng.choice([1, 2, 3])))
        if kind == 'mscd':
            o['charge'] = charges(rng, N)
        if disp:
            boots.append(boot_record(rng, kind, dt, disp, no, dict(kind=kind, k=k, **{x: str(y) for x, y in o.items()}), **o))
    ctx.judge('Trace_Estim', boots, ('variance', 'count', 'std'))
    judge_estimates(ctx, est, ('variance', 'count', 'std'))

# ---------------------------------------------------------------------------------------- C12
def c12(ctx):
    rng = ctx.rng
    ctx.model_later('MC_Estim')
    recs, est = [], []
    for k in range(ctx.size(120, 1000)):
        kind = ['msd', 'mstd', 'mscd'][k % 3]
        N = int(rng.choice([1, 1, 2, 3]))
        n = int(rng.integers(3, 26))
        dt, disp, no = random_disp(rng, N, n=n, K=None if k % 3 else 6, style='walk' if k % 5 else 'free')
        if not disp:
            continue
        o = dict(dim=DIMS[int(rng.integers(7))], sub=int(rng.choice([1, 2, 2, 3, 4, 5, 30])), boot=bool(k % 4 == 0) and kind == 'msd' or bool(k % 8 == 0),
                 block=bool(k % 7 == 6))
        if o['boot']:
            # enough values and draws to resample
            dt, disp, no = random_disp(rng, 3, n=8, style='walk')
            N = 3
            if k % 12 in (0, 4):          # few of them are enough
                o['nres'] = o['maxres'] = int(rng.integers(8, 20))
        if kind == 'mscd':
            o['charge'] = charges(rng, N)
            o['block'] = o['block'] and bool(np.any(o['charge']))
        via = None
        if k % 2 or k % 16 in (4, 8, 12):
            via = lambda b: Bootstrap.from_dict(b.to_dict())
        recs.append(boot_record(rng, kind, dt, disp, no, dict(kind=kind, N=N, n=n, via=bool(via), **{x: str(y) for x, y in o.items()}), via=via, **o))
    import os, tlc
    for k in range(ctx.size(18, 90)):
        kind, fmt = ['msd', 'mstd', 'mscd'][k % 3], P.FORMATS[k % 5]
        N, T = int(rng.integers(2, 4)), int(rng.integers(5, 30))
        S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
        c = dict(gen.base_case(), species=['Li'] * N, fwgiven=True, fw=[])
        o = dict(dim='xyz', sub=int(rng.choice([1, 2, 3])), boot=bool(k % 6 == 0))
        up = dict(dimension=o['dim'], sub_sample_dt=o['sub'], bootstrap=o['boot'], n_resamples=25, max_resamples=25)
        obs, a = run_analysis(kind, fmt, MAKE[fmt](S, L, c['species']), parser_params(c, fmt), rng, up=up)
        if a is None:
            continue
        how = ['none', 'dict', 'file'][(k // 3) % 3]
        if how == 'dict':
            a, err, msg, w = attempt(type(a).from_dict, a.to_dict())
        elif how == 'file':
            path = os.path.join(tlc.scratch(), f'c12_{k}')
            _, e1, m1, w = attempt(a.save, path)
            a, err, msg, w = attempt(type(a).load, path)
        if a is None:
            recs.append(dict(label=dict(kind=kind, how=how), d=recs[0]['d'], obs=dict(EMPTY, err='restore'), rt='1e-9', at='1e-9'))
            continue
        est.append(dict(obj=a, kind=kind, label=dict(kind=kind, fmt=fmt, how=how, **{x: str(y) for x, y in o.items()}), charge=1, opts=o))
    ctx.judge('Trace_Estim', recs)
    judge_estimates(ctx, est)

# ---------------------------------------------------------------------------------------- C13
import kinisi.diffusion as kdiff
import scipy.stats
_normaltest = scipy.stats.normaltest
Answer = collections.namedtuple('Answer', 'statistic pvalue')

@contextlib.contextmanager
def scripted(pvs):
    """Let the normality test give these p-values, one after the other; yields the list of the sizes it was asked about."""
    asked = []
    def fake(a, *x, **k):
        asked.append(len(a))
        p = pvs[min(len(asked), len(pvs)) - 1]
        return Answer(0.0, p)
    saved = [(m, getattr(m, 'normaltest')) for m in (kdiff, scipy.stats) if hasattr(m, 'normaltest')]
    try:
        for m, _ in saved:
            setattr(m, 'normaltest', fake)
        yield asked
    finally:
        for m, f in saved:
            setattr(m, 'normaltest', f)

def is_warned(w):
    return any('resampl' in x.lower() or 'not yet normal' in x.lower() for x in w)

def pvalues(samples, n0):
    """The environment's answers on the prefixes at which the real code must have asked."""
    res = []
    L = n0
    while L <= len(samples):
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                res.append(num(_normaltest(samples[:L])[1]))
            except ValueError:
                res.append('nan')
        L += 100
    return res

def resample_case(x, draws, n0, cap, alpha, seed, label, script=None, again=True, whole=True, spread=False, tie=False):
    """Runs sample_until_normal; None when the scripted test was never consulted (another implementation)."""
    def go():
        return Bootstrap.sample_until_normal(x, draws, n0, cap, alpha, np.random.RandomState(seed))
    if script is not None:
        with scripted(script) as asked:
            d, err, msg, w = attempt(go)
        if not asked:
            return None
        pv = [num(p) for p in script]
    else:
        d, err, msg, w = attempt(go)
        pv = pvalues(d.samples, n0) if d is not None else []
    obs = dict(err=err, samples=[] if err else nums(d.samples), warned=is_warned(w), again=[])
    if again and not err:
        if script is None:
            e, err2, _, _ = attempt(go)
        else:
            with scripted(script):
                e, err2, _, _ = attempt(go)
        obs['again'] = ['error'] if err2 else nums(e.samples)
    return dict(label=label, x=nums(x), draws=num(draws), n0=n0, cap=cap, alpha=num(alpha), pv=pv, whole=whole, spread=spread, tie=tie,
                hasd=False, d=0, obs=obs)

def c13(ctx):
    rng = ctx.rng
    scen = ctx.model('MC_Resample')
    recs = []
    for i, (n0, cap, log, have) in enumerate(scen):
        x = rng.integers(0, 2, int(rng.integers(5, 30))).astype(float) if i % 2 else rng.integers(0, 50, (3, 7)).astype(float)
        x.flat[0], x.flat[1] = 0, 1
        m = float(rng.choice([2, 3.7, 7, 12.99, 5]))
        script = [0.5 if g else 1e-4 for g in log]
        recs.append(resample_case(x, m, n0, cap, 1e-3, int(rng.integers(2**31)), dict(kind='model', n0=n0, cap=cap, log=log, draws=m), script))
    for k in range(6):      # the test gives exactly the level
        x = rng.integers(0, 50, (3, 7)).astype(float)
        x.flat[0], x.flat[1] = 0, 1
        n0, cap, alpha = [20, 100, 50][k % 3], [120, 350][k % 2], [1e-3, 0.05][k // 3]
        recs.append(resample_case(x, 3.7, n0, cap, alpha, int(rng.integers(2**31)), dict(kind='tie', n0=n0, cap=cap, alpha=alpha), [alpha] * 6, tie=True))
    for k in range(ctx.size(14, 100)):      # the real test decides
        n = int(rng.choice([3, 4, 10, 40]))
        x = rng.integers(0, 9, n).astype(float) ** int(rng.choice([1, 1, 4]))
        x[0], x[1] = 0, 7
        m = float(rng.choice([1, 2, 3.5, 20, 33.3])) if k % 7 else 12000.7
        n0, cap = int(rng.choice([20, 100, 130])), int(rng.choice([100, 120, 350]))
        alpha = float(rng.choice([1e-3, 0.05, 0.5, 0.0, 1.5]))
        recs.append(resample_case(x, m, n0, cap, alpha, int(rng.integers(2**31)), dict(kind='natural', n=n, draws=m, n0=n0, cap=cap, alpha=alpha)))
    for k in range(ctx.size(4, 24)):        # enough values for their moments
        n = int(rng.choice([8, 20, 50]))
        x = rng.integers(0, 20, n).astype(float)
        x[0], x[1] = 0, 19
        m = float([n // 2, n * 0.9, n * 2 + 0.5, 3][k % 4])
        n0 = ctx.size(1600, 3000)
        recs.append(resample_case(x, m, n0, n0, 1e-3, int(rng.integers(2**31)), dict(kind='moments', n=n, draws=m), again=False, spread=True))
    recs = [r for r in recs if r is not None]
    ctx.notes['scripted_runs'] = sum(r['label']['kind'] == 'model' for r in recs)
    # through the classes: whole-number displacements, so that values and draws are known exactly
    moments = []
    for k in range(ctx.size(18, 120)):
        kind = ['msd', 'mstd', 'mscd'][k % 3]
        N = int(rng.integers(2, 5)); K = int(rng.integers(4, 8))
        disp = [rng.integers(-3, 4, (N, int(rng.integers(4, 9)), 3)).astype(float) for _ in range(K)]
        for x in disp:
            x[0, 0], x[0, 1] = (3, 0, 1), (-2, 1, 0)
        dt = np.arange(1, K + 1) * 1.0
        no = np.round(N * rng.uniform(2, 6, K), 2)
        sub = int(rng.choice([1, 2]))
        q = 1 if kind != 'mscd' else [2, -1, [1.0, -1.0, 2.0, 3.0][:N]][k % 3]
        seed = int(rng.integers(2**31))
        n0, cap, alpha = int(rng.choice([20, 60])), int(rng.choice([60, 200])), float(rng.choice([1e-3, 0.3]))
        dim = DIMS[int(rng.integers(7))]
        ax = [i for i in range(3) if 'xyz'[i] in dim]
        for x in disp:
            x[:, 1] = -x[:, 0] + 1
        args = dict(sub_sample_dt=sub, bootstrap=True, n_resamples=n0, max_resamples=cap, alpha=alpha, dimension=dim)
        args = show(args, k)
        if k in (3, 7, 11):           # the documented defaults
            n0, cap, alpha = 1000, 10000, 1e-3
            for x in ('n_resamples', 'max_resamples', 'alpha'):
                del args[x]
            disp, no, dt = disp[:3 if kind == 'msd' else 4], no[:3 if kind == 'msd' else 4], dt[:3 if kind == 'msd' else 4]
            K = len(disp)
        pos = (dt, disp, q, no) if kind == 'mscd' else (dt, disp, no)
        b, err, msg, w = attempt(BOOT[kind], *pos, random_state=np.random.RandomState(seed), **args)
        b2, err2, _, _ = attempt(BOOT[kind], *pos, random_state=np.random.RandomState(seed), **args)
        lab = dict(kind=kind, k=k, sub=sub, n0=n0, cap=cap, alpha=alpha, dim=dim, q=str(q))
        if err or err2:
            recs.append(dict(label=lab, x=['0', '1'], draws='1', n0=n0, cap=cap, alpha=num(alpha), pv=[], whole=False, spread=False, tie=False, hasd=False, d=0,
                             obs=dict(err=err or err2, samples=[], warned=False, again=[])))
            continue
        ds, ds2 = samples_of(b.to_dict()['distributions']), samples_of(b2.to_dict()['distributions'])
        used = list(range(K))[::sub]
        used = used if kind == 'msd' else used[:len(used) // 2]
        d0 = data(kind, dt, disp, no, dim, sub, False, True, q)
        moments.append(dict(label=lab, d=d0, obs=observe_boot(b), rt='1e-9', at='1e-11'))
        if len(ds) != len(used):
            continue                        # reported by the length clauses
        anyreject = False
        for j, i in enumerate(used):
            s = np.array([float(v) for v in ds[j]])
            pv = pvalues(s, n0)
            rej = bool(pv) and pv[-1] not in ('nan', 'inf') and float(pv[-1]) < alpha
            anyreject = anyreject or rej
            di = data(kind, dt[i:i + 1], disp[i:i + 1], no[i:i + 1], dim, 1, False, True, q)
            # the warnings of all intervals come together: judged as a whole below
            recs.append(dict(label=dict(lab, interval=i), x=[], draws='0', n0=n0, cap=cap, alpha=num(alpha), pv=pv, whole=True, spread=False, tie=False,
                             hasd=True, d=di, obs=dict(err='', samples=ds[j], warned=rej, again=ds2[j] if j < len(ds2) else ['none'])))
        recs[-1]['obs']['warned'] = recs[-1]['obs']['warned'] if is_warned(w) == anyreject else not recs[-1]['obs']['warned']
    ctx.judge('Trace_Resample', recs)
    ctx.judge('Trace_Estim', moments, ('resampled', 'align-resampled'))
