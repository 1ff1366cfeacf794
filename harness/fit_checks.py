"""C14, C15, C16, C19: the fit, the coefficients and the predictions."""
import os, functools
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
import numpy as np
import gen
from drive import *
from kinisi.diffusion import Bootstrap, MSDBootstrap, MSTDBootstrap, MSCDBootstrap
import estim_checks as E
import pipeline_checks as P
import tlc

NOFIT = dict(err='', msg='', cov=[], lam='1', grad=[], icpt=[], hasicpt=False, want=0, coef=[], flat=[], dist=[], ppd=[])

def pool():
    return ProcessPoolExecutor(max(1, min(8, os.cpu_count() or 1)), mp_context=mp.get_context('fork'))

def injected(dt, n, v, no, dim='xyz', natoms=1, cls=Bootstrap):
    """A bootstrap object holding these estimates: an ordinary object's dictionary with the estimates replaced."""
    K = len(dt)
    rng = np.random.default_rng(5)
    disp = [rng.normal(size=(natoms, 4, 3)) for _ in range(K)]
    d = MSDBootstrap(np.array(dt, dtype=float), disp, np.array(no, dtype=float), dimension=dim, progress=False).to_dict()
    d.update(dt=np.array(dt, dtype=float), delta_t=np.array(dt, dtype=float), n=np.array(n, dtype=float), v=np.array(v, dtype=float),
             s=np.sqrt(np.array(v, dtype=float)), n_o=np.array(no, dtype=float))
    return Bootstrap.from_dict(d)

def estimates_of(dd):
    return dict(dt=nums(dd['dt']), n=nums(dd['n']), v=nums(dd['v']), no=nums(np.asarray(dd['n_o'])[:len(dd['dt'])]))

def raw_lam(e, start, model):
    """Largest eigenvalue of the unconditioned matrix, as a hint that the specification certifies."""
    dt, v, no = (np.array([float(x) for x in e[k]]) for k in ('dt', 'v', 'no'))
    m = dt >= start
    dt, v, no = dt[m], v[m], no[m]
    if not len(dt):
        return '1'
    if model:
        g = dt**2 / no
        v = g * (g @ v) / (g @ g)
    i = np.arange(len(dt))
    a, b = np.minimum.outer(i, i), np.maximum.outer(i, i)
    return num(np.linalg.eigvalsh(v[a] * no[a] / no[b])[-1])

def observe_fit(dd, e, start, model, want=0):
    """dd: the dictionary of a bootstrap object after a fit."""
    g = dd['gradient']
    o = dict(NOFIT, lam=raw_lam(e, start, model), want=want)
    if dd['covariance_matrix'] is None or g is None:
        o.update(err='NoFit')
        return o
    cov = np.asarray(dd['covariance_matrix'])
    if np.iscomplexobj(cov):
        o['err'] = 'Complex'
        return o
    o.update(cov=[nums(r) for r in np.atleast_2d(cov)], grad=nums(g['samples']), hasicpt=dd['intercept'] is not None)
    if o['hasicpt']:
        o['icpt'] = nums(dd['intercept']['samples'])
    return o

def fit_record(b, fit, start, label, parts, model=False, condmax=1e16, icept=True, want=0, judged=False, e=None, call=None, **extra):
    """Fits a bootstrap or analysis object with the given call and records the result."""
    get = lambda: (lambda d: d['diff'] if 'diff' in d else d)(b.to_dict())
    e = e or estimates_of(get())
    _, err, msg, w = attempt(call)
    rec = dict(label=label, e=e, f=dict(start=num(start), model=model, condmax=num(condmax), icept=icept), parts=parts, judged=judged,
               kind='D', dims=3, natoms=1, vol='1', temp='1', reps=1, npost=0, npred=0, every=False, **extra)
    rec['obs'] = dict(NOFIT, err=err, msg=msg) if err else observe_fit(get(), e, start, model, want)
    return rec

def random_estimates(rng, K=None, style=None, scale=None):
    """dt, n, v, n_o of K intervals.  style: increasing v n_o^2 (raw matrix definite), random walk, or broken."""
    K = K or int(rng.integers(2, 9))
    style = style or str(rng.choice(['walk', 'up', 'broken', 'flat']))
    ts = 10.0 ** int(rng.integers(-3, 3)) if scale is None else scale
    dt = np.round(np.cumsum(rng.integers(1, 4, K)) * ts, 9)
    no = np.sort(np.round(rng.uniform(2, 60, K), 3))[::-1].copy()
    vs = 10.0 ** int(rng.integers(-15, 5)) if scale is None else 1.0
    if style == 'walk':
        v = vs * (dt / dt[0])**2 / no * rng.uniform(0.8, 1.25, K)
    elif style == 'up':
        v = vs * np.cumsum(rng.uniform(0.2, 2, K)) / no**2
    elif style == 'flat':
        v = vs * np.full(K, 1.0)
    else:
        v = vs * rng.uniform(0.01, 3, K)
    v = np.array([float('%.8g' % x) for x in v])
    s = np.sqrt(v)
    slope = 60 * s.max() / dt[0]
    n = slope * dt * rng.uniform(0.9, 1.1) + rng.normal(size=K) * s * 3 + rng.uniform(-1, 1) * 20 * s.max()
    n = np.array([float('%.8g' % x) for x in np.abs(n)])
    return dt, n, v, no, style

def starts(rng, dt):
    i = int(rng.integers(0, max(1, len(dt) - 1)))
    k = int(rng.integers(5))
    if k == 0: return 0.0, 0
    if k == 1: return float(dt[i]), i
    if k == 2: return float((dt[i] + dt[min(i + 1, len(dt) - 1)]) / 2), i + 1
    if k == 3: return float(np.nextafter(dt[i], 0)), i
    return float(np.nextafter(dt[i], 1e9)), i + 1

SHORT = dict(n_samples=12, n_burn=2, n_walkers=8, thin=1)
METHODS = [('diffusion', ()), ('jump_diffusion', ()), ('conductivity', (300.0, 1000.0)), ('bootstrap_GLS', ())]

# ---------------------------------------------------------------------------------------- C14
def _c14_case(seed_k):
    seed, k, thorough = seed_k
    rng = np.random.default_rng([seed, 14, k])
    for _ in range(20):
        dt, n, v, no, style = random_estimates(rng, K=None if k % 10 else int(rng.integers(9, 13)) if k % 40 else int(rng.integers(32, 48)))
        start, i = starts(rng, dt)
        left = int(np.sum(dt >= start))
        if left >= 2 or (left == 0 and k % 4 == 0):
            break
    condmax = float(rng.choice([1e16, 1e10, 1e8, 1e6, 1e4, 300, 10, 2.5]))
    model = bool(k % 3 == 2)
    icept = bool(k % 4) or left < 3 and bool(k % 2)
    b = injected(dt, n, v, no)
    name, pos = METHODS[k % 4]
    call = lambda: getattr(b, name)(start, *pos, **lean(dict(SHORT, cond_max=condmax, model=model, fit_intercept=icept,
                                                                random_state=np.random.RandomState(k)), k))
    recs = [fit_record(b, None, start, dict(k=k, style=style, condmax=condmax, model=model, K=len(dt), start=start, how=name), ['cov'], model, condmax, icept, call=call)]
    if k % 5 == 0 and not recs[0]['obs']['err']:      # a second fit of the same object with other settings
        start2, cm2, model2 = float(dt[0]), float(rng.choice([1e16, 1e3])), not model
        call = lambda: getattr(b, name)(start2, *pos, **lean(dict(SHORT, cond_max=cm2, model=model2, random_state=np.random.RandomState(k)), k))
        recs.append(fit_record(b, None, start2, dict(k=k, style=style, condmax=cm2, model=model2, refit=True), ['cov'], model2, cm2, True, call=call))
    return recs

def _c14_traj(seed_k):
    seed, k, thorough = seed_k
    rng = np.random.default_rng([seed, 140, k])
    kind, fmt = ['msd', 'mstd', 'mscd'][k % 3], ['ase', 'pmg', 'mda'][k % 3]
    N, T = int(rng.integers(2, 8)), int(rng.integers(14, 30))
    S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.1)
    c = dict(gen.base_case(), species=['Li'] * N, fwgiven=True, fw=[], nsteps=int(rng.integers(5, 12)))
    up = dict(sub_sample_dt=int(rng.choice([1, 2])), dimension=str(rng.choice(['x', 'xy', 'xyz'])))
    obs, a = run_analysis(kind, fmt, MAKE[fmt](S, L, c['species']), parser_params(c, fmt), rng, up=up)
    if a is None or len(a.dt) < 3:
        return []
    start = float(a.dt[int(rng.integers(0, len(a.dt) - 2))])
    condmax, model = float(rng.choice([1e16, 1e6, 50])), bool(k % 2)
    p = dict(SHORT, cond_max=condmax, model=model, random_state=np.random.RandomState(k))
    call = analysis_fit(a, kind, start, p)
    return [fit_record(a, None, start, dict(k=k, fmt=fmt, kind=kind, condmax=condmax, model=model), ['cov'], model, condmax, call=call)]

def analysis_fit(a, kind, start, p, temp=300.0, asis=False):
    if p is not None and not asis:
        p = lean(p, kind, start, sorted(k for k in p), p.get('n_samples'), temp)
    args = [p] if p is not None else []
    if kind == 'msd': return lambda: a.diffusion(start, *args)
    if kind == 'mstd': return lambda: a.jump_diffusion(start, *args)
    return lambda: a.conductivity(start, temp, *args)

def gather(f, args):
    """Runs cases in worker processes. Must come before any thread is started (the workers are forked)."""
    import threading
    assert threading.active_count() == 1, threading.enumerate()
    with pool() as ex:
        return [r for rs in ex.map(f, args, chunksize=1) for r in rs]

def c14(ctx):
    n = ctx.size(120, 1500)
    recs = gather(_c14_case, [(ctx.seed, k, ctx.thorough) for k in range(n)])
    recs += gather(_c14_traj, [(ctx.seed, k, ctx.thorough) for k in range(ctx.size(18, 150))])
    ctx.notes['singular_raw'] = sum(r['label'].get('style') == 'broken' for r in recs)
    ctx.model_later('MC_Fit')
    ctx.judge('Trace_Fit', recs, ('cov', 'machinery'))

# ---------------------------------------------------------------------------------------- C15
def _c15_case(seed_k):
    seed, k, thorough = seed_k
    rng = np.random.default_rng([seed, 15, k])
    short = bool(k % 3 == 2)            # only counts, signs and the intercept: short chains with odd lengths
    for _ in range(20):
        style = ['up', 'walk', 'flat', 'broken', 'tiny'][k % 5]
        dt, n, v, no, style = random_estimates(rng, K=int(rng.integers(44, 56)) if k in (25, 46) or thorough and k % 45 == 1 else None,
                                                 style='walk' if style == 'tiny' else style)
        start, i = starts(rng, dt)
        left = int(np.sum(dt >= start))
        if left >= 2 or (left == 0 and k % 6 == 0):
            break
    icept = bool(k % 4 != 1)
    model, condmax = bool(k % 7 == 3), float(rng.choice([1e16, 1e8, 1e4, 1e2] if style in ('up', 'walk') else [1e8, 1e6, 1e4, 1e2]))
    if short and k % 2:                 # little or no slope: the truncation matters
        n = np.abs(n[::-1].copy()) if k % 4 == 1 else n * 1e-3 + np.sqrt(v)
    if short:
        p = dict(n_samples=int(rng.choice([7, 20, 33, 50])), n_burn=int(rng.choice([1, 5, 10])), n_walkers=int(rng.choice([6, 8, 10, 32, 50])), thin=int(rng.choice([1, 2, 3, 4, 10])))
        if p['n_samples'] < p['thin']:
            p['thin'] = 1
    else:
        p = dict(n_samples=2000 if thorough else 1000, n_burn=500, n_walkers=32, thin=10)
    want = (p['n_samples'] // p['thin']) * p['n_walkers']
    b = injected(dt, n, v, no)
    name, pos = METHODS[k % 4]
    call = lambda: getattr(b, name)(start, *pos, **lean(dict(p, cond_max=condmax, model=model, fit_intercept=icept,
                                                                random_state=np.random.RandomState(int(rng.integers(2**31)))), k))
    recs = [fit_record(b, None, start, dict(k=k, style=style, icept=icept, model=model, condmax=condmax, how=name, left=left, start=start, **p),
                       ['post'], model, condmax, icept, want, judged=not short, call=call)]
    if k % 5 == 4 and not recs[0]['obs']['err']:    # refit with or without the intercept
        start, icept = 0.0, not icept
        call = lambda: getattr(b, name)(start, *pos, **lean(dict(p, cond_max=condmax, model=model, fit_intercept=icept,
                                                                    random_state=np.random.RandomState(int(rng.integers(2**31)))), k, 2))
        recs.append(fit_record(b, None, start, dict(k=k, style=style, icept=icept, refit=True, how=name, **p),
                               ['post'], model, condmax, icept, want, judged=not short, call=call))
    return recs

def _c15_obj(seed_k):
    """Analysis objects with default (or nearly default) fits."""
    seed, k, thorough = seed_k
    rng = np.random.default_rng([seed, 150, k])
    kind, fmt = ['msd', 'mstd', 'mscd'][k % 3], P.FORMATS[k % 5]
    a, obs, vol = analysis(rng, kind, fmt, int(rng.integers(3, 7)), int(rng.integers(16, 30)), str(rng.choice(['xyz', 'x', 'yz'])),
                           up=dict(sub_sample_dt=int(rng.choice([1, 1, 2]))))
    if a is None or len(a.dt) < 3:
        return []
    start = float(a.dt[int(rng.integers(0, len(a.dt) - 2))])
    icept = bool(k % 3 != 2)
    np.random.seed(int(rng.integers(2**31)))
    p = None if k % 2 and icept else dict(fit_intercept=icept)
    return [fit_record(a, None, start, dict(k=k, kind=kind, fmt=fmt, start=start, p=str(p)), ['post'], False, 1e16, icept, 3200, judged=True,
                       call=analysis_fit(a, kind, start, p))]

def c15(ctx):
    recs = gather(_c15_case, [(ctx.seed, k, ctx.thorough) for k in range(ctx.size(90, 900))])
    recs += gather(_c15_obj, [(ctx.seed, k, ctx.thorough) for k in range(ctx.size(20, 200))])
    ctx.notes['full_chains'] = sum(r['judged'] for r in recs)
    ctx.model_later('MC_Fit')
    ctx.judge('Trace_Fit', recs, ('post',), chunk=300)

# ---------------------------------------------------------------------------------------- C16
COEF = dict(msd='diffusion_coefficient', mstd='jump_diffusion_coefficient', mscd='sigma')
KIND = dict(msd='D', mstd='J', mscd='S')
PUBLIC = dict(msd='D', mstd='D_J', mscd='sigma')

def coef_obs(rec, dist):
    """Adds the coefficient samples; dist: the public distribution."""
    if dist is None:
        rec['obs']['err'] = rec['obs']['err'] or 'NoCoefficient'
    else:
        rec['obs']['coef'] = nums(dist.samples)
    return rec

def restored(a, how, name):
    if how == 'dict':
        return attempt(type(a).from_dict, a.to_dict())
    path = os.path.join(tlc.scratch(), name + '.hdf')
    _, err, msg, w = attempt(a.save, path)
    if err:
        return None, err, msg, w
    return attempt(type(a).load, path)

def analysis(rng, kind, fmt, N, T, dim, reps=1, up=None, copt={}, **kw):
    sets = [gen.trajectory(rng, N, T, str(rng.choice(['cubic', 'ortho', 'tri'] if kind != 'mscd' else ['tri', 'tri', 'ortho'])) if fmt != 'mda' else 'ortho', step=0.1)[:2] for _ in range(reps)]
    sets = [(S, sets[0][1]) for S, L in sets]
    c = dict(gen.base_case(), species=['Li'] * N, fwgiven=True, fw=[], nsteps=int(rng.integers(4, 9)))
    c.update(copt)
    tr = [MAKE[fmt](S, L, c['species']) for S, L in sets]
    obs, a = run_analysis(kind, fmt, tr if reps > 1 else tr[0], parser_params(c, fmt), rng, dtype='identical' if reps > 1 else None,
                          up=dict(dimension=dim, **(up or {})), **kw)
    vol = abs(np.linalg.det(np.asarray(sets[0][1][0], dtype=float)))
    return a, obs, vol

def _c16_case(seed_k):
    seed, k, thorough = seed_k
    rng = np.random.default_rng([seed, 16, k])
    kind, fmt = ['msd', 'mstd', 'mscd'][k % 3], P.FORMATS[k % 5]
    dim = E.DIMS[int(rng.integers(len(E.DIMS)))]
    N, T = int(rng.integers(2, 6)), int(rng.integers(10, 16))
    reps = int(rng.choice([1, 1, 2, 3]))
    kw = dict(ionic_charge=[1, 2.0, np.linspace(1, 2, N * reps)][k % 3 if k % 2 else 0]) if kind == 'mscd' else {}
    if kind == 'mscd': kw = dict(ionic_charge=float(rng.choice([1, 2, -1])))
    a, obs, vol = analysis(rng, kind, fmt, N, T, dim, reps, **kw)
    lab = dict(k=k, kind=kind, fmt=fmt, dim=dim, N=N, reps=reps)
    if a is None or len(a.dt) < 3:
        return []
    recs = []
    todo = ['fit', 'refit'] + [['dict', 'refit'], ['file', 'refit'], ['file', 'dict', 'refit']][k % 3]
    e = estimates_of(a.to_dict()['diff'])
    temp = 300.0
    for step in todo:
        if step in ('fit', 'refit'):
            temp = float(np.round(rng.uniform(1, 2000), 2)) if rng.integers(5) else float(rng.choice([1e-3, 0.5, 4.2, 1e5, 1]))
            start = float(a.dt[int(rng.integers(0, len(a.dt) - 2))])
            icept = bool(rng.integers(2))
            p = dict(SHORT, random_state=np.random.RandomState(int(rng.integers(2**31))), fit_intercept=icept)
            call = analysis_fit(a, kind, start, p, temp)
        else:
            b, err, msg, w = restored(a, step, f'c16_{k}_{len(recs)}')
            call = (lambda: None) if not err else (lambda: 1 / 0)
            a = b if b is not None else a
        r = fit_record(a, None, start, dict(lab, step=step, temp=temp), ['coef'], icept=icept, e=e, call=call)
        r.update(kind=KIND[kind], dims=len(dim), natoms=N * reps, vol=num(vol), temp=num(temp), reps=reps)
        if fmt == 'mda':
            r['vol'] = num(a.volume)        # judged against the cell by C09; here: that it is the one used
        r['obs']['cov'] = []
        recs.append(coef_obs(r, getattr(a, PUBLIC[kind])))
    return recs

def _c16_boot(seed_k):
    seed, k, thorough = seed_k
    rng = np.random.default_rng([seed, 161, k])
    kind = ['msd', 'mstd', 'mscd'][k % 3]
    dim = E.DIMS[int(rng.integers(len(E.DIMS)))]
    N = int(rng.choice([1, 2, 5, 17]))
    dt, disp, no = E.random_disp(rng, N, n=14, style='walk')
    pos = (dt, disp, 1, no) if kind == 'mscd' else (dt, disp, no)
    b, err, msg, w = attempt(E.BOOT[kind], *pos, **show(dict(dimension=dim, sub_sample_dt=int(rng.choice([1, 2]))), k))
    if err or len(b.dt) < 3:
        return []
    if k % 3 == 2:
        b = Bootstrap.from_dict(b.to_dict())
    e = estimates_of(b.to_dict())
    recs = []
    for what in rng.permutation(['msd', 'mstd', 'mscd']):      # any coefficient can be asked of any object
        temp, vol = float(np.round(rng.uniform(1, 2000), 2)) if rng.integers(5) else float(rng.choice([1e-3, 0.5, 1e5])), float('%.6g' % (10.0 ** rng.uniform(-1, 7)))
        name, args = {'msd': ('diffusion', ()), 'mstd': ('jump_diffusion', ()), 'mscd': ('conductivity', (temp, vol))}[what]
        start = float(b.dt[int(rng.integers(0, len(b.dt) - 2))])
        call = lambda: getattr(b, name)(start, *args, random_state=np.random.RandomState(k), **show(SHORT, k, name))
        r = fit_record(b, None, start, dict(k=k, boot=kind, what=str(what), dim=dim, N=N), ['coef'], e=e, call=call)
        r.update(kind=KIND[what], dims=len(dim), natoms=N, vol=num(vol), temp=num(temp), reps=1)
        r['obs']['cov'] = []
        recs.append(coef_obs(r, getattr(b, PUBLIC[what])))
    return recs

def c16(ctx):
    recs = gather(_c16_case, [(ctx.seed, k, ctx.thorough) for k in range(ctx.size(45, 300))])
    recs += gather(_c16_boot, [(ctx.seed, k, ctx.thorough) for k in range(ctx.size(45, 300))])
    ctx.model_later('MC_Fit')
    ctx.judge('Trace_Fit', recs, ('coef',))

# ---------------------------------------------------------------------------------------- C19
def few_samples(b, rng, m, icept, slope, off):
    """The dictionary of a fitted bootstrap object with its posterior replaced by m well separated samples."""
    d = b.to_dict()
    g = np.round(slope * (1 + np.arange(m)), 6)
    c = np.round(off * rng.permutation(m), 6)
    d['gradient'] = dict(d['gradient'], samples=g)
    d['intercept'] = dict(d['gradient'], name='intercept', samples=c) if icept else None
    d['flatchain'] = np.c_[g, c] if icept else g[:, None]
    return d

def _c19_ppd(seed_k):
    seed, k, thorough = seed_k
    rng = np.random.default_rng([seed, 19, k])
    dt, n, v, no, style = random_estimates(rng, K=int(rng.integers(3, 7)), style=['up', 'walk', 'broken'][k % 3], scale=1.0)
    start = [float(dt[int(rng.integers(0, len(dt) - 2))]), 0.0, float(dt[1]), -1.0][(k // 2) % 4]
    icept = bool(k % 2)
    b = injected(dt, n, v, no)
    condmax = [1e4, 5.0, 1.5][(k // 3) % 3]
    p = dict(SHORT, fit_intercept=icept, cond_max=condmax, random_state=np.random.RandomState(k))
    _, err, msg, w = attempt(lambda: b.bootstrap_GLS(start, **p))
    if err:
        return [fit_record(b, None, start, dict(k=k, style=style), ['ppd'], condmax=condmax, icept=icept, call=lambda: 1 / 0)]
    s = np.sqrt(np.max(np.diag(np.asarray(b.covariance_matrix))))
    m = int(rng.integers(2, 4))
    mode = k % 5
    direct = k % 10 == 1          # the fitted object itself, with its own chain
    if mode == 4:
        m = int(rng.integers(2900, 4200))           # as many as a default chain has
    d = few_samples(b, rng, m, icept, float('%.4g' % (40 * s / dt[0])), float('%.4g' % (-130.7 * s)))
    if not direct:
        b = Bootstrap.from_dict(d)
    npost, npred = [(40, 60), (4, 1000), (m, 256), (500, 1), (m, 2)][mode]
    args = [dict(n_posterior_samples=40, n_predictive_samples=60), dict(n_posterior_samples=4, n_predictive_samples=1000), {},
            dict(n_posterior_samples=500, n_predictive_samples=1), dict(n_predictive_samples=2)][mode]
    np.random.seed(int(rng.integers(2**31)))
    via = k % 4
    if via == 3 and not direct:        # the analysis object's method
        a = DiffusionAnalyzer.from_dict(dict(delta_t=dt, disp_3d=d['displacements'], n_o=no, volume=1.0, diff=d))
        f = lambda: a.posterior_predictive(*([show(args, k)] if args or k % 2 else []))
    else:
        f = lambda: b.posterior_predictive(**show(args, k))
    out, err, msg, w = attempt(f)
    rec = fit_record(b, None, start, dict(k=k, style=style, icept=icept, m=m, start=start, npost=npost, npred=npred), ['ppd'], condmax=condmax, icept=icept, call=lambda: None)
    rec.update(npost=npost, npred=npred, every=mode == 0)
    if err:
        rec['obs'].update(err=err, msg=msg)
    else:
        out = np.asarray(out, dtype=float)
        ok = out.ndim == 2 and out.shape[0] == npost * npred
        blocks = out.reshape(npost, npred, -1) if ok else []
        if mode == 4 and ok:            # the first and last ones stand for all
            blocks = blocks[[0, 1, -2, -1]]
            rec['npost'] = 4
        rec['obs']['ppd'] = [mat(x) for x in blocks]
    return [rec]

def _c19_obj(seed_k):
    seed, k, thorough = seed_k
    rng = np.random.default_rng([seed, 191, k])
    kind, fmt = ['msd', 'mstd', 'mscd'][k % 3], P.FORMATS[k % 5]
    many = k % 10 == 9              # many intervals, not evenly spaced
    a, obs, vol = analysis(rng, kind, fmt, int(rng.integers(2, 5)), int(rng.integers(9, 15)) if not many else 110, str(rng.choice(['xyz', 'x', 'yz'])),
                           up=dict(sub_sample_dt=int(rng.choice([1, 1, 2])) if not many else 1), copt=dict(nsteps=300, spacing='logarithmic') if many else {})
    if a is None or len(a.dt) < 3:
        return []
    recs = []
    for step in ['fit', ['refit', 'dict', 'file'][(k // 3) % 3], 'refit', ['file', 'dict'][k % 2]]:
        if 'fit' in step:
            start = float(a.dt[int(rng.integers(0, len(a.dt) - 1))] if kind != 'msd' else a.dt[int(rng.integers(0, len(a.dt) - 2))])
            if np.sum(np.asarray(a.dt) >= start) < 2:
                start = float(a.dt[0])
            icept = bool(rng.integers(2))
            p = dict(SHORT, random_state=np.random.RandomState(int(rng.integers(2**31))), fit_intercept=icept, n_samples=6)
            if k % 15 == 7 and step == 'fit':       # a long chain
                p.update(n_samples=400, n_walkers=26)
            call = analysis_fit(a, kind, start, p)
        else:
            b, err, msg, w = restored(a, step, f'c19_{k}_{len(recs)}')
            call = (lambda: None) if not err else (lambda: 1 / 0)
            a = b if b is not None else a
        r = fit_record(a, None, start, dict(k=k, kind=kind, fmt=fmt, step=step, icept=icept), ['dist', 'flat'], icept=icept, call=call)
        r['obs']['cov'] = []
        if not r['obs']['err']:
            r['obs']['coef'] = nums(getattr(a, PUBLIC[kind]).samples)
            r['e']['dt'] = nums(a.dt)
            for key, f in (('flat', lambda: mat(a.flatchain)), ('dist', lambda: mat(a.distribution))):
                val, err, msg, w = attempt(f)
                r['obs'].update({key: val} if not err else dict(err=err, msg=msg))
            # what the public attributes say must be what the dictionary said
            if a.intercept is not None and nums(a.intercept.samples) != r['obs']['icpt'] or (a.intercept is None) == r['obs']['hasicpt']:
                r['obs']['err'] = 'InterceptDiffers'
        recs.append(r)
    return recs

def c19(ctx):
    recs = gather(_c19_ppd, [(ctx.seed, k, ctx.thorough) for k in range(ctx.size(40, 300))])
    recs += gather(_c19_obj, [(ctx.seed, k, ctx.thorough) for k in range(ctx.size(30, 240))])
    ctx.model_later('MC_Fit')
    ctx.judge('Trace_Fit', recs, ('ppd', 'chain', 'lines'), chunk=400)
