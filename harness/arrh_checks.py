"""C20: temperature dependence."""
import copy
import numpy as np
from drive import *
import fit_checks as F
from kinisi import arrhenius as ka
from uravu.distribution import Distribution

def arguments(rng):
    n = int(rng.integers(2, 6))
    temps = np.round(rng.uniform(60, 1500, n), 2)
    mode = int(rng.integers(4))
    if mode == 0: temps = np.sort(temps)
    elif mode == 1: temps = np.sort(temps)[::-1].copy()
    elif mode == 2: temps = np.arange(1, n + 1) * int(rng.choice([100, 150]))      # whole numbers
    E, A = rng.uniform(0.02, 0.4), 10.0 ** rng.uniform(-6, 3)
    d = A * np.exp(-E / (8.617333262e-5 * temps)) * rng.uniform(0.9, 1.1, n)
    return temps, d

def given_bounds(rng, model):
    k = int(rng.integers(4))
    if k < 2:
        return None
    b = [(float(np.round(rng.uniform(0, 0.01), 4)), float(np.round(rng.uniform(0.2, 3), 3))), (0, float('%.3g' % 10.0 ** rng.uniform(-3, 9)))]
    if model == 'sup':
        b.append((float(np.round(rng.uniform(0, 5), 1)), None if k == 2 else float(np.round(rng.uniform(10, 55) if rng.integers(3) else rng.uniform(200, 900), 1))))
    return b if rng.integers(2) or model == 'sup' else tuple(b)

def pairs(b):
    return [[num(q[0]), 'open' if q[1] is None else num(q[1])] for q in b]

def _c20_case(seed_k):
    seed, k, thorough = seed_k
    rng = np.random.default_rng([seed, 20, k])
    np.random.seed(int(rng.integers(2**31)))
    steps, live = [], []
    shared = given_bounds(rng, 'sup') if k % 3 == 0 else None       # one bounds object for several models
    for _ in range(int(rng.integers(2, 5))):
        model = ['std', 'sup', 'sup'][int(rng.integers(3))]
        temps, d = arguments(rng)
        b = shared if shared is not None and model == 'sup' and rng.integers(2) else given_bounds(rng, model)
        err_d = d * 0.1
        y, kw = (d, dict(diffusion_error=err_d)) if rng.integers(2) else ([Distribution(rng.normal(m, m * 0.05, 50)) for m in d], {})
        if b is not None:
            kw['bounds'] = b
        before = copy.deepcopy((temps, d, err_d, b, [q.samples for q in y] if kw.get('diffusion_error') is None else 0))
        cls = ka.StandardArrhenius if model == 'std' else ka.SuperArrhenius
        obj, err, msg, w = attempt(cls, temps, y, **kw)
        st = dict(model=model, temps=nums(temps), given=b is not None, b=pairs(before[3]) if b is not None else [])
        live.append((obj, st, temps, d, err_d, b, y, before, err, msg, kw))
        steps.append(st)
    # observed when all of them exist, in another order
    for j in rng.permutation(len(live)):
        obj, st, temps, d, err_d, b, y, before, err, msg, kw = live[j]
        o = dict(err=err, msg=msg, bounds=[], x=[], kept=True, chain=[], cols=[], dist=[], extra=[], fn=[], first=[])
        st['obs'] = o
        if err:
            continue
        def look():
            np_ = 2 if st['model'] == 'std' else 3
            o['bounds'] = [nums(q) for q in obj.bounds]
            o['x'] = nums(obj.x)
            o['first'] = mat(obj.flatchain[:12])
            if k % 4 == 1:      # a real chain
                if k % 8 == 1 and np_ == 2:
                    obj.max_likelihood('mini', x0=[0.1, float(np.max(d))] + [1.0] * (np_ - 2))
                else:
                    for q, v in zip(range(np_), [0.1, float(np.max(d)), 10.0]):
                        obj.variables[q] = Distribution(v)
                obj.mcmc(walkers=12, n_samples=2, n_burn=1, progress=False)
            else:               # chosen samples, every parameter with its own range
                m = int(rng.integers(1, 7))
                top = float(np.min(temps)) * 0.8
                obj.variables = [Distribution(np.round(rng.uniform(0.01, 0.6 if rng.integers(4) else 12, m), 4)), Distribution(np.array([float('%.4g' % v) for v in 10.0 ** rng.uniform(-5, 4, m)]))] + \
                                [Distribution(np.round(rng.uniform(0, top, m), 3))][:np_ - 2]
            o['chain'] = mat(obj.flatchain)
            names = ['activation_energy', 'preexponential_factor', 'T0'][:np_]
            o['cols'] = [nums(getattr(obj, n).samples) for n in names]
            o['dist'] = mat(obj.distribution)
            for T in (float(np.round(rng.uniform(1600, 3000), 1)), int(rng.integers(1550, 4000)), float(temps[0]), float(np.round(np.min(temps) * rng.uniform(0.82, 0.99), 2)),
                      float(np.round(rng.uniform(np.min(temps), np.max(temps)), 2))):
                if np_ == 3 and T <= float(np.max(obj.flatchain[:, 2])) + 1:
                    continue
                v = obj.extrapolate(T)
                o['extra'].append([num(T), nums(getattr(v, 'samples', v))])
            f = ka.arrhenius if st['model'] == 'std' else ka.super_arrhenius
            p = [float(np.round(rng.uniform(0, 1 if rng.integers(3) else 15), 3)), float('%.3g' % 10.0 ** rng.uniform(-8, 8)), float(np.round(rng.uniform(0, 50), 1))][:np_]
            ts = np.round(rng.uniform(60, 2000 if rng.integers(2) else 12000, 3), 1)
            if np_ == 3 and rng.integers(2):       # close to T0, and below it
                p[0], p[2] = float(np.round(rng.uniform(0, 0.002), 5)), float(np.round(rng.uniform(100, 400), 2))
                ts = np.round(p[2] + np.array([rng.uniform(0.2, 0.95), rng.uniform(1, 30), -rng.uniform(0.5, 30)]), 3)
            for t, v in zip(ts, np.asarray(f(ts, *p))):
                o['fn'].append([num(t), nums(p), num(v)])
            o['fn'].append([num(ts[0]), nums(p), num(f(float(ts[0]), *p))])
            # another evaluation of the relationship itself
            o['fn'].append([num(ts[1]), nums(p), num(obj.function(float(ts[1]), *p))])
        _, err, msg, w = attempt(look)
        if err:
            o.update(err=err, msg=msg)
        after = (temps, d, err_d, b, [q.samples for q in y] if kw.get('diffusion_error') is None else 0)
        o['kept'] = bool(all(np.array_equal(np.asarray(u, dtype=object if i == 3 else None), np.asarray(v, dtype=object if i == 3 else None)) and type(u) is type(v)
                             for i, (u, v) in enumerate(zip(before, after))))
    return [dict(label=dict(k=k, models=[s['model'] for s in steps], given=[s['given'] for s in steps]), steps=steps)]

def c20(ctx):
    recs = F.gather(_c20_case, [(ctx.seed, k, ctx.thorough) for k in range(ctx.size(120, 2000))])
    ctx.model_later('MC_Arrhenius')
    ctx.judge('Trace_Arrhenius', recs)
