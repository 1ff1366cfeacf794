"""C21: inputs are never modified."""
import copy, hashlib, os, pickle, tempfile
import numpy as np
import gen
from drive import *
import fit_checks as F
import session_checks as S
import tlc
from kinisi import arrhenius as ka
from kinisi import diffusion as kdiff
from uravu.distribution import Distribution

def content(x):
    """A value that is equal for equal content only."""
    t = type(x).__name__
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'O':
            return (t, 'O', x.shape, tuple(content(v) for v in x.ravel()))
        return (t, str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes(), bool(x.flags.writeable))
    if isinstance(x, dict):
        return (t, tuple((k, content(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (t, tuple(content(v) for v in x))
    if isinstance(x, np.random.RandomState):
        return 'random state'
    if t == 'Atoms':
        return (t, content(np.array(x.positions)), content(np.array(x.cell[:])), content(np.array(x.pbc)), tuple(x.get_chemical_symbols()),
                content(dict(x.info)), tuple(sorted(x.arrays)), len(x.constraints), content(np.array(x.get_celldisp())))
    if t == 'Structure':
        return (t, content(np.array(x.frac_coords)), content(np.array(x.lattice.matrix)), tuple(str(s) for s in x.species), content(np.array(x.cart_coords)),
                repr(sorted(x.site_properties)))
    if t == 'Xdatcar':
        return (t, content(list(x.structures)), x.comment)
    if t == 'Universe':
        r = x.trajectory
        return (t, content(np.array(r.get_array())), content(np.array(r.dimensions_array)), tuple(x.atoms.types), tuple(x.atoms.names), len(r), len(r.transformations))
    if isinstance(x, Distribution):
        return (t, content(np.asarray(x.samples)))
    if isinstance(x, str) and os.path.isfile(x):
        return (t, x, open(x, 'rb').read())
    return (t, repr(x))

def token(x):
    return hashlib.sha256(repr(content(x)).encode()).hexdigest()[:12]

def universes(x):
    if type(x).__name__ == 'Universe':
        return [x]
    return [u for v in x for u in universes(v)] if isinstance(x, (list, tuple)) else []

def seen(o):
    """What can be observed of an object, flattened."""
    if hasattr(o, 'delta_t'):
        return S.flatten(dict(dt=o.delta_t, disp=list(o.disp_3d), volume=getattr(o, 'volume', None), idx=list(o.indices)), 'parser', {})
    if hasattr(o, 'ngp_max'):
        a, b = S.parts(o)
        return {**a, **b}
    if hasattr(o, 'to_dict'):
        return S.flatten(o.to_dict(), 'bootstrap', {'class': type(o).__name__})
    if hasattr(o, 'flatchain'):
        return S.flatten(dict(chain=o.flatchain, bounds=[list(q) for q in o.bounds], x=o.x), 'arrhenius', {})
    return S.flatten(o, 'value', {})

def _c21_case(job):
    seed, k, thorough = job
    rng = np.random.default_rng([seed, 21, k])
    fmt, kind = ['ase', 'pmg', 'mda', 'xdat', 'file'][k % 5], ['msd', 'mstd', 'mscd'][int(rng.integers(3))]
    N, T = int(rng.integers(4, 7)), int(rng.integers(9, 16))
    cell = 'ortho' if fmt == 'mda' else ['cubic', 'ortho', 'tri'][int(rng.integers(3))]
    species = ['Li'] * (N - 2) + ['O', 'S']
    # in-file images other than the first one must be left as they are
    images = bool(rng.integers(2)) and fmt != 'mda'
    A, La, _ = gen.trajectory(rng, N, T, cell, npt=bool(rng.integers(3) == 0) and not images, step=0.2, images=images)
    B = A + rng.uniform(-0.02, 0.02, A.shape)
    one, two = MAKE[fmt](A, La, species), MAKE[fmt](B, La, species)
    if fmt == 'ase':
        for t in one:
            t.info['note'] = 'mine'
    own = dict(traj=one, both=[one, two])
    bars = dict(progress=bool(k % 2)) if k % 3 else {}
    base = dict(time_step=1.0, step_skip=int(rng.integers(1, 4)), **bars)
    own['pp_specie'] = dict(base, specie='Li')
    own['names'] = ['Li', 'S']
    own['pp_names'] = dict(base, specie=own['names'], framework_indices=[])
    own['none'] = []
    own['idx'], own['fw'] = [int(i) for i in rng.permutation(N - 2)[:2]], [N - 1, N - 2]
    own['pp_index'] = dict(base, specie=None, specie_indices=own['idx'], framework_indices=own['fw'])
    own['pp_sf'] = dict(base, specie='Li', framework_indices=own['fw'])
    own['pp_index2'] = dict(base, specie=None, specie_indices=own['idx'])
    own['mols'], own['masses'] = [[1, 2], [4, 3]] if N > 4 else [[1, 2]], [float(np.round(rng.uniform(1, 30), 2)) for _ in range(2)]
    if k % 3 == 1:          # molecules of one atom; other kinds of sequences
        own['mols'], own['masses'] = [[2], [1], [3]][:N - 2], [float(np.round(rng.uniform(1, 30), 2))]
    if k % 4 == 3:
        own['masses'] = tuple(own['masses'])
    own['pp_mol'] = dict(base, specie=None, specie_indices=own['mols'], masses=own['masses'], framework_indices=[N, N - 1] if rng.integers(2) else None)
    own['pp_bad'] = [dict(base, specie='Zr'), dict(base, specie='Li', memory_limit=1e-12), dict(base, specie='Li', min_dt=1e9), dict(base, specie='Li', spacing='cubic'),
                     dict(base, specie='Li', sampling='none'), dict(base, specie=None, specie_indices=own['mols'], masses=[1.0] * 4)][int(rng.integers(6))]
    rs = np.random.RandomState(3)
    own['up'] = [dict(bars), dict(bars, dimension='xy'), dict(bars, sub_sample_dt=2), dict(bars, dimension='Z'),
                 dict(bars, bootstrap=True, n_resamples=20, max_resamples=20, random_state=rs)][int(rng.integers(5))]
    own['charges'] = [np.round(rng.uniform(-2, 2, N - 2), 2), np.arange(N - 2) - 1.0 + rng.uniform(-1e-9, 1e-9, N - 2), np.arange(N - 2) % 3 - 1][int(rng.integers(3))]
    if k % 4 == 1:
        own['charges'] = np.where(np.arange(N - 2) % 2, 1e-14, own['charges'])
    own['charge_list'] = [float(x) for x in own['charges']]
    short = F.SHORT
    own['fit'] = dict(short, random_state=rs, **bars)
    if rng.integers(2):
        own['fit'].update(cond_max=float(rng.choice([1e16, 1e3])), fit_intercept=bool(rng.integers(2)))
    own['fit_bad'] = dict(short, random_state=rs, no_such=1, **bars)
    own['pred'] = dict(n_posterior_samples=2, n_predictive_samples=3, **bars)
    # displacement data given directly
    M = int(rng.integers(1, 4))
    own['dt'] = np.arange(1, 7) * float(rng.choice([1.0, 0.5])) if rng.integers(3) else np.arange(1, 7)
    own['disp'] = [rng.normal(size=(M, 14 - i, 3)) for i in range(6)]
    own['no'] = np.array([M * 14 / (i + 1) for i in range(6)]) * (1 if k % 5 else 1e5)
    own['rows'] = np.cumsum(rng.normal(size=(N, T, 3)), axis=1)
    own['rows'][rng.integers(N), rng.integers(T)] = [1e-14, -0.0, -1e-13]
    own['bcharges'] = [np.round(rng.uniform(-2, 2, M), 2), np.arange(M) - 1.0 + rng.uniform(-1e-9, 1e-9, M)][int(rng.integers(2))]
    q = rng.normal(size=(5, 5))
    own['matrix'] = q @ np.diag([1e-9, 1e-3, 1, 2, 3]) @ q.T
    own['matrix'] = (own['matrix'] + own['matrix'].T) / 2
    # temperature dependence
    own['temps'] = np.array([300.0, 400.0, 550.0])
    own['D'] = np.array([1e-6, 2e-6, 5e-6])
    own['Derr'] = own['D'] * 0.1
    own['Ddist'] = [Distribution(rng.normal(m, m * 0.05, 40)) for m in own['D']]
    own['bounds2'], own['bounds3'] = [(0, 1.0), (0, 1e-3)], [(0, 1.0), (0, 1e-3), (0, None)]
    names = list(own)
    index = {n: i + 1 for i, n in enumerate(names)}
    objs, tokens, refs, steps, kinds = [], [], [], [], []
    unis = universes(own['both'])
    frames = [int(rng.integers(T)) if rng.integers(2) else 0 for u in unis]

    def name_of(v):
        for i, r in enumerate(refs):
            if S.same(r, v, 1e-12):
                return f'v{i}'
        refs.append(v)
        return f'v{len(refs) - 1}'
    def inputs_now():
        return [token(own[n]) for n in names]
    start = inputs_now()
    pps = ['pp_specie', 'pp_names', 'pp_index', 'pp_index2', 'pp_mol', 'pp_sf']
    deps = dict(pp_names=['names'], pp_index=['idx', 'fw'], pp_index2=['idx'], pp_sf=['fw'], pp_mol=['mols', 'masses'])
    ctor = CTOR[fmt]
    history = []
    for _ in range(int(rng.integers(7, 12))):
        if history and rng.integers(4) == 0:
            op = history[int(rng.integers(len(history)))]          # the same call again
        else:
            op = str(rng.choice(['parser', 'parser', 'analyze', 'analyze', 'analyze', 'bad', 'bootstrap', 'bootstrap', 'base', 'fit', 'fit', 'fitbad', 'predict', 'restore', 'restore', 'matrix', 'arrh']))
            pp = pps[int(rng.integers(len(pps)))]
            sel = [int(i) for i in rng.integers(0, 1000, 4)]
            op = (op, pp, sel)
        what, pp, sel = op
        uses, on, wrong, made, call, key = [], 0, False, False, None, ''
        fitted = [i for i, o in enumerate(objs) if hasattr(o, 'ngp_max')]
        if what == 'parser' and fmt in PARSERS:
            uses, made, call = ['traj', pp] + deps.get(pp, []), True, lambda: PARSERS[fmt](own['traj'], **own[pp])
        elif what in ('analyze', 'parser'):
            dtype = [None, 'identical', 'consecutive'][sel[0] % 3]
            if fmt == 'mda' and dtype == 'consecutive': dtype = 'identical'
            tr = 'traj' if dtype is None else 'both'
            kd_ = ['msd', 'mstd', 'mscd'][sel[1] % 3]
            kw = dict(dtype=dtype) if dtype else {}
            if kd_ == 'mscd':
                ch = 'charges' if sel[2] % 2 else 'charge_list'
                if pp == 'pp_specie' and dtype != 'identical':
                    kw['ionic_charge'] = own[ch]; uses.append(ch)
                else:
                    kw['ionic_charge'] = 2
            uses, made, key = uses + [tr, pp, 'up'] + deps.get(pp, []), True, f'{kd_} {dtype} {"ionic_charge" in kw}'
            call = lambda: getattr(ANALYZERS[kd_], ctor)(own[tr], own[pp], uncertainty_params=own['up'], **kw)
        elif what == 'bad':
            if sel[0] % 2:
                uses, wrong, call = ['traj', 'pp_bad', 'up'], True, lambda: ANALYZERS[kind]. __dict__[ctor].__func__(ANALYZERS[kind], own['traj'], own['pp_bad'], uncertainty_params=own['up'])
            else:
                uses, wrong, key = ['traj', 'pp_specie', 'up'], True, 'dtype'
                call = lambda: getattr(ANALYZERS[kind], ctor)(own['traj'], own['pp_specie'], dtype='other', uncertainty_params=own['up'])
        elif what == 'bootstrap':
            cls = ['MSDBootstrap', 'MSTDBootstrap', 'MSCDBootstrap'][sel[0] % 3]
            dim = ['xyz', 'x', 'yz'][sel[1] % 3]
            sub = 1 + sel[2] % 2
            a = ['dt', 'disp'] + (['bcharges'] if sel[0] % 3 == 2 else []) + ['no']
            boot = sel[3] % 2 == 0
            bk = dict(n_resamples=20, max_resamples=20, random_state=rs) if boot else {}
            uses, made, key = a, True, f'{cls} {dim} {sub} {boot}'
            call = lambda: getattr(kdiff, cls)(*[own[n] for n in a], dimension=dim, sub_sample_dt=sub, bootstrap=boot, **bars, **bk)
        elif what == 'base':
            samp = ['multi-origin', 'single-origin'][sel[0] % 2]
            fw_ = ['fw', 'none'][sel[1] % 2]
            uses, made, key = ['rows', 'idx', fw_], True, samp
            call = lambda: Parser(own['rows'], own['idx'], own[fw_], 1.0, 1, sampling=samp, **bars)
        elif what in ('fit', 'fitbad', 'predict', 'restore') and fitted:
            i = fitted[sel[0] % len(fitted)]
            o = objs[i]
            if len(o.dt) < 4: continue
            s = float(o.dt[sel[1] % 2])
            p = 'fit' if what == 'fit' else 'fit_bad'
            if what == 'fit':
                uses, on, key = ['fit'], i + 1, f'{s}'
                call = F.analysis_fit(o, kinds[i], s, own['fit'], 300.0, asis=True)
            elif what == 'fitbad':
                uses, on, wrong, key = ['fit_bad'], i + 1, True, f'{s} {sel[2] % 2}'
                call = F.analysis_fit(o, kinds[i], s, own['fit_bad'], 300.0, asis=True) if sel[2] % 2 else F.analysis_fit(o, kinds[i], 1e9, own['fit'], 300.0, asis=True)
                if not sel[2] % 2: uses = ['fit']
            elif what == 'predict':
                if o.to_dict()['diff']['gradient'] is None: continue
                uses, on, call = ['pred'], i + 1, lambda: o.posterior_predictive(own['pred'])
            else:
                # a dictionary the caller keeps
                n = f'dict{i}_{len(steps)}'
                d = o.to_dict()
                t0 = token(d)
                b, err, msg, w = attempt(lambda: type(o).from_dict(d))
                if not err:
                    _, err, msg, w = attempt(F.analysis_fit(b, kinds[i], s, dict(F.SHORT, random_state=np.random.RandomState(1)), 300.0))
                ok = token(d) == t0
                now = [name_of(seen(q)) for q in objs]
                steps.append(dict(op=f'restore {i + 1}', uses=[], on=0, wrong=False, failed=bool(err), err=err, msg=msg, out='' if ok else 'dictionary-changed', made=0,
                                  own=inputs_now() if ok else ['changed'] + inputs_now()[1:], objs=now, frame=True))
                tokens = now
                continue
        elif what == 'matrix' and hasattr(kdiff, 'minimum_eigenvalue_method'):
            cm = [1e16, 1e4, 10.0][sel[0] % 3]
            uses, key, call = ['matrix'], f'{cm}', lambda: kdiff.minimum_eigenvalue_method(own['matrix'], cm)
        elif what == 'arrh':
            sup, dist, given = sel[0] % 2, sel[1] % 2, sel[2] % 2
            y = own['Ddist'] if dist else own['D']
            kw = {} if dist else dict(diffusion_error=own['Derr'])
            uses = ['temps', 'Ddist'] if dist else ['temps', 'D', 'Derr']
            if given:
                kw['bounds'] = own['bounds3' if sup else 'bounds2']
                uses.append('bounds3' if sup else 'bounds2')
            key = f'{sup} {dist} {given}'
            call = lambda: (lambda r: (r.x, r.y.s if hasattr(r.y, 's') else 0, [list(q) for q in r.bounds]))((ka.SuperArrhenius if sup else ka.StandardArrhenius)(own['temps'], y, **kw))
        if call is None:
            continue
        history.append(op)
        for u, f in zip(unis, frames):
            u.trajectory[f]
        np.random.seed(9)
        rs.seed(3)
        res, err, msg, w = attempt(call)
        frame_ok = all(int(u.trajectory.ts.frame) in (0, f) for u, f in zip(unis, frames))
        if made and not err:
            objs.append(res)
            kinds.append(next((q for q, c in ANALYZERS.items() if isinstance(res, c)), ''))
        out = 'failed ' + err if err else name_of(seen(objs[on - 1] if what == 'fit' else res))
        now = [name_of(seen(q)) for q in objs]
        steps.append(dict(op=f'{what} {key}', uses=[index[n] for n in dict.fromkeys(uses)], on=on, wrong=wrong, failed=bool(err), err=err, msg=msg, out=out,
                          made=len(objs) if made and not err else 0, own=inputs_now(), objs=now, frame=frame_ok))
    return [dict(label=dict(k=k, fmt=fmt, ops=[s['op'] for s in steps]), names=names, own=start, steps=steps)] if steps else []

def c21(ctx):
    recs = F.gather(_c21_case, [(ctx.seed, k, ctx.thorough) for k in range(ctx.size(250, 3000))])
    ctx.notes['calls'] = sum(len(r['steps']) for r in recs)
    ctx.notes['failing_calls'] = sum(s['failed'] for r in recs for s in r['steps'])
    ctx.notes['repeated_calls'] = sum(len(r['steps']) - len({(s['op'], tuple(s['uses'])) for s in r['steps']}) for r in recs)
    ctx.model_later('MC_Inputs')
    ctx.refuted_later('MC_Inputs', 'MC_Inputs_alias.cfg')
    ctx.judge('Trace_Inputs', recs)
