"""C17, C18: the life of analysis objects."""
import copy, hashlib, os, shutil, sys, tempfile
import multiprocessing as mp
import numpy as np
import gen
from drive import *
import fit_checks as F
import pipeline_checks as P
import tlc

FITKEYS = {'covariance_matrix', 'diffusion_coefficient', 'jump_diffusion_coefficient', 'sigma', 'intercept', 'gradient', 'flatchain',
           'start_dt', 'model', 'cond_max'}
PUBLIC_DATA = ['dt', 'dr', 'ngp_max', 'volume', 'msd', 'msd_std', 'mstd', 'mstd_std', 'mscd', 'mscd_std']
PUBLIC_FIT = ['D', 'D_J', 'sigma', 'intercept', 'flatchain', 'distribution']

def flatten(x, path, out):
    if isinstance(x, dict):
        for k in x:
            flatten(x[k], f'{path}/{k}', out)
        out[path + '#'] = 'dict%d' % len(x)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            flatten(v, f'{path}/{i}', out)
        out[path + '#'] = 'list%d' % len(x)
    elif x is None:
        out[path] = 'None'
    elif isinstance(x, bytes):
        out[path] = x.decode()
    elif isinstance(x, (str, np.str_)):
        out[path] = str(x)
    elif isinstance(x, np.ndarray) and x.dtype.kind in 'SUO':
        out[path] = str(x.tolist())
    else:
        try:
            out[path] = np.asarray(x, dtype=float)
        except Exception:
            out[path] = repr(type(x))
    return out

def parts(a):
    """All that can be seen of an analysis object: (data part, fit part)."""
    d = dict(a.to_dict())
    diff = dict(d.pop('diff'))
    data = flatten(d, '', {})
    data = flatten({k: v for k, v in diff.items() if k not in FITKEYS}, 'diff', data)
    fit = flatten({k: v for k, v in diff.items() if k in FITKEYS}, 'diff', {})
    data['class'] = type(a).__name__
    for names, to in ((PUBLIC_DATA, data), (PUBLIC_FIT, fit)):
        for n in names:
            if not hasattr(type(a), n):
                continue
            try:
                v = getattr(a, n)
                if isinstance(v, list):
                    v = [q.samples for q in v]
                flatten(getattr(v, 'samples', v), 'public:' + n, to)
            except Exception as e:
                to['public:' + n] = 'fails'
    return data, fit

def same(p, q, rt=1e-9):
    if p.keys() != q.keys():
        return False
    for k, v in p.items():
        w = q[k]
        if isinstance(v, str) or isinstance(w, str):
            if not (isinstance(v, str) and isinstance(w, str) and v == w):
                return False
        elif v.shape != w.shape or not np.allclose(v, w, rtol=rt, atol=rt * (np.max(np.abs(w[np.isfinite(w)]), initial=0)) * 1e-3, equal_nan=True):
            return False
    return True

# ---- inputs (shared by all objects of a process, as a user would) and arguments ------------------
def inputs(seed, n=18):
    """The pool of inputs: class, format, options."""
    res = []
    for k in range(n):
        rng = np.random.default_rng([seed, 170, k])
        kind, fmt = ['msd', 'mstd', 'mscd'][k % 3], ['ase', 'pmg', 'mda', 'xdat', 'file'][k % 5]
        N, T = int(rng.integers(2, 4)), int(rng.choice([13, 16, 27]))
        if k % 6 == 4:
            T = 30          # more than ten reported intervals
        if k % 8 == 7:
            N, T = 14, 75   # arrays of some thousand entries
        reps = 2 if k % 7 == 3 else 1
        S = [gen.trajectory(rng, N, T, ['ortho', 'tri'][k % 2] if fmt != 'mda' else 'ortho', step=0.15)[:2] for _ in range(reps)]
        c = dict(gen.base_case(), species=['Li'] * N + ['O'], nsteps=T if k % 3 == 1 and T < 40 else int(rng.choice([12, 100])))
        S = [(np.concatenate([s, np.full((T, 1, 3), 0.25)], axis=1), S[0][1]) for s, l in S]
        up = [dict(), dict(dimension='xy'), dict(bootstrap=True, n_resamples=25, max_resamples=25), dict(dimension='Z', sub_sample_dt=1),
              dict(bootstrap=True, n_resamples=25, max_resamples=25, dimension='yz'), dict(sub_sample_dt=2)][k % 6]
        if 'dimension' in up:
            up = dict(up, dimension=[up['dimension'], 'x', 'Xz', 'y'][k // 6 % 4])
        kw = dict(ionic_charge=[1, -2.0, np.linspace(-1, 2, N * reps)][int(rng.integers(3))]) if kind == 'mscd' else {}
        if kind == 'msd' and k % 4 == 3:
            up = dict(block=True)
        res.append(dict(k=k, kind=kind, fmt=fmt, S=S, c=c, up=up, kw=kw, reps=reps, tiny=False))
    # no, one or two reported intervals: too few to fit
    for k in range(n, n + 10):
        rng = np.random.default_rng([seed, 170, k])
        kind, fmt = ['msd', 'mstd', 'mscd'][k % 3], ['ase', 'pmg', 'mda', 'xdat', 'file'][k % 5]
        S, L, _ = gen.trajectory(rng, 3, 14, 'ortho', step=0.15)
        c = dict(gen.base_case(), species=['Li'] * 3, fwgiven=True, fw=[], nsteps=[1, 2, 4, 1, 2, 3][(k - n) % 6])
        up = [dict(), dict(bootstrap=True, n_resamples=25, max_resamples=25)][k % 2]
        if k >= n + 6:          # collective motion of single windows: nothing is reported
            kind, c = ['mstd', 'mscd'][k % 2], dict(c, nsteps=[100, 3][k % 4 < 2], sampling='single-origin')
        res.append(dict(k=k, kind=kind, fmt=fmt, S=[(S, L)], c=c, up=up, kw={}, reps=1, tiny=True))
    return res

_traj = {}
def build(inp, progress=False):
    c, fmt = inp['c'], inp['fmt']
    if inp['k'] not in _traj:
        tr = [MAKE[fmt](s, l, c['species']) for s, l in inp['S']]
        _traj[inp['k']] = tr if inp['reps'] > 1 else tr[0]
    up = dict(inp['up'], progress=progress) if progress is not None else dict(inp['up'])
    if up.get('bootstrap'):
        up['random_state'] = np.random.RandomState(42)
    kw = dict(inp['kw'])
    if inp['reps'] > 1:
        kw['dtype'] = 'identical'
    return getattr(ANALYZERS[inp['kind']], CTOR[fmt])(_traj[inp['k']], parser_params(c, fmt), uncertainty_params=up, **kw)

def arguments(s, a, progress=False):
    """Fit arguments by name."""
    dt = a.dt
    p = dict(F.SHORT, n_samples=8, progress=progress)
    return {'s1': (float(dt[0]), 300.0, dict(p, random_state=np.random.RandomState(11))),
            's2': (float(dt[1]), 450.0, dict(p, fit_intercept=False, cond_max=1e3, random_state=np.random.RandomState(12))),
            's3': (float(dt[0]), 300.0, dict(p, model=True, cond_max=1e8, random_state=np.random.RandomState(13))),
            's4': (0.0, 77.5, dict(p, n_samples=10, thin=2, n_walkers=10, random_state=np.random.RandomState(14)))}[s]

def do_fit(a, kind, s, progress=False):
    start, temp, p = arguments(s, a, progress)
    F.analysis_fit(a, kind, start, p, temp)()

def predict(a, progress=False):
    np.random.seed(77)
    p = dict(n_posterior_samples=3, n_predictive_samples=4)
    return np.asarray(a.posterior_predictive(p if progress is None else dict(p, progress=progress)))

# ---- failing calls --------------------------------------------------------------------------------
class Interrupt(BaseException):
    pass

class Tracer:
    """Raises Interrupt at the n-th line executed in kinisi (n = None: only counts)."""
    def __init__(self, n=None):
        self.n, self.count = n, 0
    def line(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.n is not None and self.count == self.n:
                raise Interrupt()
        return self.line
    def call(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith('/repo/kinisi/'):
            return self.line
        return None
    def run(self, f):
        old = sys.gettrace()
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter('ignore')
            sys.settrace(self.call)
            try:
                f()
            finally:
                sys.settrace(old)

def bad_fit(a, kind, rng):
    """A call that fails. Returns (failed, error, how)."""
    how = int(rng.integers(6))
    base = dict(F.SHORT, random_state=np.random.RandomState(5))
    start, p, temp = float(a.dt[1]), base, 300.0
    if how == 0: start = float(a.dt[-1]) * 2 + 1
    elif how == 1: p = dict(base, no_such_option=1, cond_max=5.0)
    elif how == 2: p = dict(base, n_walkers=2, cond_max=7.0, model=True)
    elif how == 3 and kind == 'mscd': temp = 'hot'
    elif how == 3: p = dict(base, thin=0, fit_intercept=False)
    else:
        # interrupted at some line
        p = dict(base, cond_max=20.0, fit_intercept=bool(rng.integers(2)), model=bool(rng.integers(2)))
        fresh = lambda: dict(p, random_state=np.random.RandomState(5))
        t = Tracer()        # how many lines there are is found out with a copy
        probe, err, _, _ = attempt(type(a).from_dict, copy.deepcopy(a.to_dict()))
        if err:
            return None, '', 'no copy'
        t.run(F.analysis_fit(probe, kind, start, fresh(), temp))
        n = int(t.count - rng.integers(0, 25)) if how == 4 else int(rng.integers(1, min(t.count, 120)))
        try:
            Tracer(n).run(F.analysis_fit(a, kind, start, fresh(), temp))
        except Interrupt:
            return True, 'Interrupt', f'interrupt {n} of {t.count}'
        return None, '', 'not interrupted'
    _, err, msg, w = attempt(F.analysis_fit(a, kind, start, p, temp))
    return bool(err), err, f'kind {how}'

# ---- walks ------------------------------------------------------------------------------------------
POOL, REF = [], {}

def reference(job):
    """One object, built and fitted alone in a new process."""
    k, s = job
    inp = POOL[k]
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter('ignore')
            a = build(inp)
            if len(a.dt) < 3 and not (inp['tiny'] and s == 'none'):
                return job, None
            if s == 'none':
                return job, (parts(a), None)
            do_fit(a, inp['kind'], s)
            return job, (parts(a), flatten(predict(a), 'ppd', {}))
    except Exception as e:
        return job, repr(e)[:300]

def references(ks):
    jobs = [(k, s) for k in ks for s in ('none', 's1', 's2', 's3', 's4')]
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as p:
        for job, r in p.imap_unordered(reference, jobs, chunksize=1):
            REF[job] = r

def digest(root):
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            res[os.path.relpath(p, root)] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return res

def classify(a, ds):
    """Names of the references this object equals (data, fit)."""
    data, fit = parts(a)
    dn = next((n for n, k in ds.items() if same(data, REF[k, 'none'][0][0])), 'other')
    order = [dn] if dn != 'other' else list(ds)
    for n in order:
        for s in ('none', 's1', 's2', 's3', 's4'):
            if isinstance(REF[ds[n], s], tuple) and same(fit, REF[ds[n], s][0][1]):
                return dict(data=dn, fit=s)
    return dict(data=dn, fit='other')

def walk(job):
    index, ops, ks, seed = job
    rng = np.random.default_rng([seed, 171, index])
    ds = dict(zip(('d1', 'd2', 'd3'), ks))
    root = tempfile.mkdtemp(prefix='walk', dir=tlc.scratch())
    home = os.getcwd()
    for d in ('b.c', 'd'):
        os.mkdir(os.path.join(root, d))
    relative = index % 3 == 0
    progress = [False, True, None][index % 3]
    if relative:
        os.chdir(root)
    objs, kinds, reg = [None, None], [None, None], None
    files, steps = {}, []
    classes = {}
    cached = [dict(data='empty', fit='none')] * 2
    try:
        for x in ops:
            i = x['o'] - 1
            failed, err, pred, how = False, '', ['none', 'none'], ''
            if x['op'] not in ('build', 'load', 'noise', 'from', 'touch', 'drop') and objs[i] is None:
                break                   # the code has left the specification at an earlier step, which is recorded
            name = x['a'] if relative else os.path.join(root, x['a'])
            if x['op'] == 'build':
                inp = POOL[ds[x['a']]]
                b, err, msg, w = attempt(build, inp, progress)
                if b is not None:
                    objs[i], kinds[i] = b, inp['kind']
            elif x['op'] == 'fit':
                _, err, msg, w = attempt(do_fit, objs[i], kinds[i], x['a'], bool(progress))
            elif x['op'] == 'badfit':
                failed, err, how = bad_fit(objs[i], kinds[i], rng)
                if failed is None:
                    break               # could not be made to fail: the history ends here
            elif x['op'] == 'predict':
                v, err, msg, w = attempt(predict, objs[i], progress)
                if not err:
                    f = flatten(v, 'ppd', {})
                    for n, k in ds.items():
                        for s in ('s1', 's2', 's3', 's4'):
                            if isinstance(REF[k, s], tuple) and same(f, REF[k, s][1], 1e-7):
                                pred = [n, s]
            elif x['op'] == 'save':
                _, err, msg, w = attempt(objs[i].save, name)
                path = os.path.splitext(x['a'])[0] + '.hdf'
                if not err:
                    classes[path] = (type(objs[i]), kinds[i])
            elif x['op'] == 'load':
                path = os.path.splitext(x['a'])[0] + '.hdf'
                cls, kind = classes.get(path, (DiffusionAnalyzer, 'msd'))
                b, err, msg, w = attempt(cls.load, name)
                if b is not None:
                    objs[i], kinds[i] = b, kind
            elif x['op'] == 'touch':            # a file of the user's own
                with open(os.path.join(root, x['a']), 'wb') as f:
                    f.write(b'' if rng.integers(2) else b'something else\n')
            elif x['op'] == 'drop':
                os.remove(os.path.join(root, x['a']))
            elif x['op'] == 'take':
                v, err, msg, w = attempt(objs[i].to_dict)
                reg = (type(objs[i]), kinds[i], v)
            elif x['op'] == 'from':
                b, err, msg, w = attempt(reg[0].from_dict, reg[2])
                if b is not None:
                    objs[i], kinds[i] = b, reg[1]
            elif x['op'] == 'noise':
                np.random.seed(int(rng.integers(2**31)))
                np.random.rand(3)
                inp = POOL[ds['d1']]
                attempt(lambda: F.analysis_fit(build(inp), inp['kind'], 0.0, F.SHORT)())
            failed = bool(err) if x['op'] != 'badfit' else failed
            now = digest(root)
            if x['op'] == 'drop':
                files.pop(x['a'], None)
            steps.append(dict(x=x, failed=failed, err=err, pred=pred, how=how, files=sorted(now),
                              changed=[f for f in files if now.get(f) != files[f]],
                              objs=[classify(o, ds) if o is not None else dict(data='empty', fit='none') for o in objs]))
            files = now
    finally:
        os.chdir(home)
        shutil.rmtree(root, ignore_errors=True)
    return dict(label=dict(walk=index, inputs=list(ks)), steps=steps)

def session(ctx, clauses, n):
    global POOL
    POOL = inputs(ctx.seed)
    references(range(len(POOL)))
    tiny = [k for k in range(len(POOL)) if POOL[k]['tiny'] and isinstance(REF[k, 'none'], tuple)]
    broken = {job: r for job, r in REF.items() if isinstance(r, str)}
    usable = [k for k in range(len(POOL)) if all(isinstance(REF[k, s], tuple) for s in ('none', 's1', 's2', 's3', 's4'))]
    ctx.notes['inputs'] = [dict(k=k, kind=POOL[k]['kind'], fmt=POOL[k]['fmt'], options=str(POOL[k]['up'])) for k in usable]
    # references that cannot tell the arguments apart would make the check blind
    for k in usable:
        for i, s in enumerate(('s1', 's2', 's3', 's4')):
            for t in ('s1', 's2', 's3', 's4')[:i]:
                if same(REF[k, s][0][1], REF[k, t][0][1]):
                    ctx.failures.append(dict(spec='Trace_Session', clauses=['arguments-ignored'], case=dict(label=[k, s, t])))
    scen = [x[0] for x in ctx.walks('Sim_Session', n)]
    jobs = []
    for i, ops in enumerate(scen):
        if i % 6 == 5 and len(tiny) > 2:      # histories without fits
            ks, ops = ctx.rng.choice(tiny, 3, replace=False), [x for x in ops if x['op'] not in ('fit', 'badfit', 'noise')]
        else:
            ks = ctx.rng.choice(usable, 3, replace=False)
        jobs.append((i, ops, [int(k) for k in ks], ctx.seed))
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as p:
        recs = p.map(walk, jobs, chunksize=1)
    if broken:      # a fit that fails although nothing is wrong with it
        ctx.failures.append(dict(spec='Trace_Session', clauses=['reference-fails'], case=dict(label={str(k): v for k, v in list(broken.items())[:5]})))
    ctx.notes['steps'] = sum(len(r['steps']) for r in recs)
    ops = {}
    for r in recs:
        for s in r['steps']:
            ops[s['x']['op']] = ops.get(s['x']['op'], 0) + 1
    ctx.notes['operations'] = ops
    ctx.model_later('MC_Session', *(['MC_Session_big.cfg'] if ctx.thorough else []), workers=ctx.size(3, 8), timeout=3000)
    ctx.judge('Trace_Session', recs, clauses, cfg='Trace_Session.cfg')

def c17(ctx):
    session(ctx, ('session',), ctx.size(110, 1500))

def c18(ctx):
    session(ctx, ('restored', 'file'), ctx.size(110, 1500))
