"""Runs the real code of /repo on scenarios and records what can be observed from outside."""
import os, sys, signal, warnings, contextlib, io, zlib
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
import numpy as np
import kinisi
assert list(kinisi.__path__) == ['/repo/kinisi'], kinisi.__path__
from kinisi.parser import Parser, ASEParser, PymatgenParser, MDAnalysisParser
from kinisi.analyze import DiffusionAnalyzer, JumpDiffusionAnalyzer, ConductivityAnalyzer
from kinisi import diffusion as kd

class Hang(BaseException):
    pass

@contextlib.contextmanager
def limit(seconds):
    def handler(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)

def attempt(f, *a, seconds=60, **k):
    """Returns (result, error class name or '', message, warnings)."""
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('always')
        try:
            with limit(seconds):
                return f(*a, **k), '', '', [str(x.message) for x in w]
        except Hang:
            return None, 'Hang', 'no answer', []
        except Exception as e:
            return None, type(e).__name__, str(e)[:300], [str(x.message) for x in w]

def num(x):
    x = float(x)
    return repr(x) if np.isfinite(x) else ('nan' if np.isnan(x) else 'inf')

def nums(a):
    return [num(x) for x in np.asarray(a, dtype=float).ravel()]

def mat(a):
    return [nums(r) for r in np.asarray(a, dtype=float)]

# ---- trajectories in the supported formats -------------------------------------------------------
def as_ase(S, L, species):
    from ase import Atoms
    return [Atoms(species, scaled_positions=s, cell=l, pbc=True) for s, l in zip(S, L)]

def as_pmg(S, L, species):
    from pymatgen.core import Structure, Lattice
    return [Structure(Lattice(l), species, s) for s, l in zip(S, L)]

def as_mda(S, L, species):
    import MDAnalysis as mda
    from MDAnalysis.lib.mdamath import triclinic_box
    n = len(species)
    u = mda.Universe.empty(n, trajectory=True)
    u.add_TopologyAttr('type', list(species))
    u.add_TopologyAttr('name', list(species))
    pos = np.array([s @ l for s, l in zip(S, L)], dtype=np.float32)
    dims = np.array([triclinic_box(*l) for l in L], dtype=np.float32)
    u.load_new(pos, dimensions=dims)
    return u

def xdatcar_text(S, L, species):
    """XDATCAR with a header per frame (variable cell) or a single header (constant cell)."""
    groups, counts = [], []
    for s in species:
        if groups and groups[-1] == s:
            counts[-1] += 1
        else:
            groups.append(s); counts.append(1)
    const = all(np.array_equal(l, L[0]) for l in L)
    out = []
    for t, (s, l) in enumerate(zip(S, L)):
        if t == 0 or not const:
            out += ['kinisi', '1.0'] + ['  '.join('%.12f' % x for x in r) for r in l] + [' '.join(groups), ' '.join(map(str, counts))]
        out.append('Direct configuration= %5d' % (t + 1))
        out += ['  '.join('%.12f' % x for x in r) for r in s]
    return '\n'.join(out) + '\n'

def coin(*key, of=2):
    """A reproducible choice made from what is being run (so that replaying a scenario makes the same one)."""
    return zlib.crc32(repr(key).encode()) % of

def show(args, *key):
    """Progress bars on, off or left to the default: the results may not depend on it."""
    k = coin('progress', *key, of=3)
    return dict(args) if k == 0 else dict(args, progress=k == 1)

FIT_DEFAULTS = dict(cond_max=1e16, model=False, fit_intercept=True, n_samples=1000, n_walkers=32, n_burn=500, thin=10)

def lean(p, *key):
    """Fit arguments without some of those that have their default value anyway; progress bars on or off."""
    p = {k: v for k, v in p.items() if not (k in FIT_DEFAULTS and FIT_DEFAULTS[k] == v and coin('lean', k, *key))}
    return p if 'progress' in p else show(p, *key)

DEFAULTS = dict(n_steps=100, spacing='linear', sampling='multi-origin')

def parser_params(c, fmt):
    key = [fmt] + [c[k] for k in sorted(c) if k not in ('frames', 'disp')]
    if c['frames']:
        key.append(c['frames'][0])
    pp = dict(time_step=float(c['ts']), step_skip=c['skip'], n_steps=c['nsteps'], spacing=c['spacing'],
              sampling=c['sampling'])
    for k, v in DEFAULTS.items():               # the default may be left out
        if pp[k] == v and (c.get('omit') or coin(k, *key)):
            del pp[k]
    pp = show(pp, *key)
    seq = tuple if coin('tuple', *key, of=4) == 0 else list
    if c['minset']:
        pp['min_dt'] = float(c['mindt'])
    if c['maxset']:
        pp['max_dt'] = float(c['maxdt'])
    if c['subT'] != 1:
        pp['sub_sample_traj'] = c['subT']
    if fmt == 'mda' and c['subA'] != 1:
        pp['sub_sample_atoms'] = c['subA']
    pp['specie'] = None
    if c['mode'] == 'specie':
        names = list(c['names'])
        if fmt in ('pmg', 'xdat', 'file'):      # pymatgen's own objects may stand for the names
            from pymatgen.core.periodic_table import get_el_sp, Element
            names = [get_el_sp(x) if Element.is_valid_symbol(x.rstrip('+-0123456789')) and coin('object', i, *key, of=3) == 0 else x
                     for i, x in enumerate(names)]
        pp['specie'] = names[0] if len(names) == 1 else names
    elif c['mode'] == 'index':
        pp['specie_indices'] = seq(c['idx'])
    else:
        pp['specie_indices'] = seq(seq(m) for m in c['mols'])
        if c['massgiven']:
            pp['masses'] = seq(float(x) for x in c['masses'])
    if c['fwgiven']:
        pp['framework_indices'] = seq(c['fw'])
    return pp

PARSERS = dict(ase=ASEParser, pmg=PymatgenParser, mda=MDAnalysisParser)

def as_file(S, L, species):
    import tempfile, tlc
    fd, path = tempfile.mkstemp(prefix='XDATCAR', dir=tlc.scratch())
    with os.fdopen(fd, 'w') as f:
        f.write(xdatcar_text(S, L, species))
    return path

def as_xdat(S, L, species):
    from pymatgen.io.vasp import Xdatcar
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return Xdatcar(as_file(S, L, species))

MAKE = dict(ase=as_ase, pmg=as_pmg, mda=as_mda, xdat=as_xdat, file=as_file)

def probes(disp, rng, full=400, extra=60):
    """All entries of small arrays, a random sample (plus corners) of large ones."""
    total = sum(d.shape[0] * d.shape[1] for d in disp)
    keys = []
    if total <= full:
        keys = [(i, a, o) for i, d in enumerate(disp) for a in range(d.shape[0]) for o in range(d.shape[1])]
    else:
        seen = set()
        for i, d in enumerate(disp):
            if len(disp) > 30 and i not in (0, 1, len(disp) - 1, len(disp) - 2) and rng.random() > 20 / len(disp):
                continue
            for a in {0, d.shape[0] - 1, int(rng.integers(d.shape[0]))}:
                for o in {0, d.shape[1] - 1, int(rng.integers(d.shape[1]))}:
                    seen.add((i, a, o))
        for _ in range(extra):
            i = int(rng.integers(len(disp)))
            seen.add((i, int(rng.integers(disp[i].shape[0])), int(rng.integers(disp[i].shape[1]))))
        keys = sorted(seen)
    return [dict(i=i, a=a, o=o, v=nums(disp[i][a, o])) for i, a, o in keys]

def well_formed(disp):
    return all(getattr(d, 'ndim', 0) == 3 and d.shape[2] == 3 and d.shape[0] > 0 and d.shape[1] > 0 for d in disp)

def observe(dt, disp, no, vol, rng, idx=None):
    disp = [np.asarray(d) for d in disp]
    ok = well_formed(disp)
    return dict(err='', msg='', dt=nums(dt), no=['skip'] if no is None else nums(no), vol='none' if vol is None else num(vol),
                shape=[list(map(int, d.shape[:2])) if ok else [-1, -1] for d in disp],
                probes=probes(disp, rng) if ok and disp else [],
                idx=[] if idx is None else [int(i) for i in idx])

def no_obs(err, msg):
    return dict(err=err, msg=msg, dt=[], no=[], vol='none', shape=[], probes=[], idx=[])

ANALYZERS = dict(msd=DiffusionAnalyzer, mstd=JumpDiffusionAnalyzer, mscd=ConductivityAnalyzer)
CTOR = dict(ase='from_ase', pmg='from_pymatgen', mda='from_universe', xdat='from_Xdatcar', file='from_file')

def run_parser(fmt, c, S, L, rng, analyzer=None):
    """One parser object, or (analyzer = msd, mstd, mscd) one analysis object, whose dictionary is observed."""
    traj = MAKE[fmt](S, L, c['species'])
    pp = parser_params(c, fmt)
    if analyzer or fmt in ('xdat', 'file'):
        return run_analysis(analyzer or 'msd', fmt, traj, pp, rng)[0]
    p, err, msg, w = attempt(PARSERS[fmt], traj, **pp)
    if err:
        return no_obs(err, msg)
    idx = p.indices if c['mode'] != 'mol' else None
    return observe(p.delta_t, p.disp_3d, getattr(p, '_n_o', None), p.volume, rng, idx)

def run_analysis(kind, fmt, traj, pp, rng, dtype=None, up=None, **kw):
    """One analysis object; returns (observation, object)."""
    if dtype is not None:
        kw['dtype'] = dtype
    if up != 'omit':
        up = show(up or {}, kind, fmt, up, sorted(pp.items(), key=str))
    if up == 'omit':
        pass
    elif up or coin('none', kind, fmt, sorted(pp.items(), key=str)):
        kw['uncertainty_params'] = up
    a, err, msg, w = attempt(getattr(ANALYZERS[kind], CTOR[fmt]), traj, pp, **kw)
    if err:
        return no_obs(err, msg), None
    d = a.to_dict()
    return observe(d['delta_t'], d['disp_3d'], d['n_o'], a.volume, rng), a

def run_base(c, rng, memory_limit=None, dtype=np.float64):
    """The base parser: displacement rows of all atoms are given."""
    pp = parser_params(c, 'base')
    for k in ('specie', 'specie_indices', 'framework_indices', 'sub_sample_traj'):
        pp.pop(k, None)
    if memory_limit is not None:
        pp['memory_limit'] = memory_limit
    disp = np.array([[[float(x) for x in v] for v in a] for a in c['disp']], dtype=dtype)
    p, err, msg, w = attempt(Parser, disp, list(c['idx']), list(c['fw']), **pp)
    if err:
        return no_obs(err, msg)
    return observe(p.delta_t, p.disp_3d, getattr(p, '_n_o', None), None, rng)

def frames_json(S, L):
    return [dict(s=mat(s), L=mat(l)) for s, l in zip(S, L)]
