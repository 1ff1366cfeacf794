"""C01-C09, C22: from trajectories to displacement observations."""
import re
import numpy as np
import gen
from drive import *

def record(reps, obs, label, rt='1e-9', at='1e-8', ivl=True, vrt='1e-9', mem='none', item=8, named=False):
    return dict(label=label, reps=reps, obs=obs, rt=rt, at=at, ivl=ivl, vrt=vrt, mem=mem, item=item, named=named)

FORMATS = ('ase', 'pmg', 'mda', 'xdat', 'file')
TOL = dict(ase=('1e-9', '1e-8', '1e-9'), pmg=('1e-9', '1e-8', '1e-9'), mda=('1e-5', '4e-4', '1e-5'),
           xdat=('1e-9', '1e-8', '1e-9'), file=('1e-9', '1e-8', '1e-9'))
UNIT = dict(ase='1', pmg='0.001', mda='1', xdat='0.001', file='0.001')

def spec_input(fmt, c, S, L):
    c = dict(c)
    c['frames'] = frames_json(S, L)
    c['wrapf'] = fmt == 'ase'
    c['unit'] = UNIT[fmt]
    if fmt != 'mda':
        c['subA'] = 1
    return c

def parser_record(fmt, c, S, L, rng, label, ivl=True, analyzer=None):
    c = spec_input(fmt, c, S, L)
    obs = run_parser(fmt, c, S, L, rng, analyzer)
    rt, at, vrt = TOL[fmt]
    return record([c], obs, dict(label, fmt=fmt, analyzer=analyzer or ''), rt, at, ivl, vrt)

def rnd(x):
    return repr(float(x))

def mixed_species(rng, N, mobile='Li'):
    """A species list with at least one mobile atom."""
    sp = [str(rng.choice(['Li', 'O', 'Na'])) for _ in range(N)]
    if mobile not in sp:
        sp[int(rng.integers(N))] = mobile
    return sp

PARTS = [0.5, 0.04, 0.25, 0.75, 0.96, 0.999, 0.9999]      # of a step: rounded down, however close to the next

def options(rng, c, T, level=1):
    """Random time options for a trajectory of T frames (or rows)."""
    c['ts'] = rnd(rng.choice([1.0, 0.5, 2.0, 0.1, 0.3, 0.001, 0.05, 1e-3 * 7, 0.4134137, 0.0241888433, 1 / 3]))
    c['skip'] = int(rng.choice([1, 1, 2, 5, 10, 50]))
    c['subT'] = int(rng.choice([1, 1, 1, 2, 3])) if T >= 8 else 1
    n = -(-T // c['subT'])
    st = float(c['ts']) * c['skip'] * c['subT']
    lo = 1
    if rng.random() < 0.35 and n > 2:
        k = int(rng.integers(0, n - 1))
        c['minset'] = True
        c['mindt'] = rnd(k * st if rng.random() < 0.7 else (k + PARTS[int(rng.integers(len(PARTS)))]) * st)
        lo = max(k, 1)
    if rng.random() < 0.35:
        k = int(rng.integers(lo + 1, n + 1)) if lo + 1 < n + 1 else n
        c['maxset'] = True
        c['maxdt'] = rnd(k * st if (rng.random() < 0.7 or k == n) else (k + PARTS[int(rng.integers(len(PARTS)))]) * st)
    c['nsteps'] = int(rng.choice([100, 100, 3, 5, 7, 2, n, n + 1, max(1, n // 2)]))
    c['spacing'] = str(rng.choice(['linear', 'linear', 'logarithmic']))
    c['sampling'] = str(rng.choice(['multi-origin', 'multi-origin', 'multi-origin', 'single-origin']))
    return c

def unused(rng, S, L, sub):
    """The same frames with other ones between them, which sub-sampling leaves out (they may hold anything)."""
    T = (len(S) - 1) * sub + 1 + int(rng.integers(sub))
    S2 = rng.uniform(0, 1, (T,) + S.shape[1:])
    L2 = np.array([np.round(L[t // sub] * rng.uniform(0.7, 1.4), 4) for t in range(T)])
    S2[::sub], L2[::sub] = S, L
    return S2, L2

def left_handed(rng, S, L):
    """The same positions and cell with two cell vectors exchanged."""
    i, j = [int(x) for x in rng.permutation(3)[:2]]
    p = [0, 1, 2]
    p[i], p[j] = j, i
    return S[..., p].copy(), L[:, p].copy()

# ---------------------------------------------------------------------------------------------- C01
def c01(ctx):
    rng = ctx.rng
    scen = ctx.model('MC_Unwrap')
    ctx.model_later('MC_Unwrap', 'MC_Unwrap_images.cfg')
    if ctx.thorough:
        ctx.model_later('MC_Unwrap', 'MC_Unwrap_big.cfg')
    recs = []
    # every behaviour of the model, packed as the axes of the atoms of one trajectory per ring size
    for size in sorted({s[0] for s in scen}):
        paths = [s[1] for s in scen if s[0] == size]
        rng.shuffle(paths)
        while len(paths) % 3:
            paths.append(paths[0])
        A = np.array(paths, dtype=float).reshape(-1, 3, len(paths[0]))      # atom, axis, frame
        S = A.transpose(2, 0, 1) / size
        for fmt in ('ase', 'pmg', 'mda'):
            n = S.shape[1]
            for cell in (('ortho', 'tric') if ctx.thorough or fmt == 'pmg' else (('tric',) if size % 2 else ('ortho',))):
                Lm = gen.lattice(rng, cell)
                L = np.array([Lm] * S.shape[0])
                sub = rng.permutation(n)[:ctx.size(60, n)]
                c = dict(gen.base_case(), species=['Li'] * len(sub), fwgiven=True, fw=[])
                # sites are moved off the faces by 1/8 site
                recs.append(parser_record(fmt, c, S[:, sub] + 0.125 / size, L, rng, dict(kind='model paths', ring=size, cell=cell)))
    # random histories
    for k in range(ctx.size(45, 400)):
        fmt = ['ase', 'pmg', 'mda'][k % 3]
        cell = ['cubic', 'ortho', 'tric'][(k // 3) % 3]
        npt = (k // 9) % 2 == 1
        if npt and k % 2:
            npt = 'slight'
        T = int(rng.choice([2, 3, 5, 9, 14, 30])); N = int(rng.choice([1, 2, 3, 5]))
        if k % 13 == 12:
            T, N = 130, 2
        if k % 15 == 14 or k == 0 or k == 1:
            T, N = 3, int(rng.integers(65, 130))
        if N == 1 and T < 3:
            T = 3
        images = bool(rng.random() < 0.4) and not npt
        rot = fmt != 'mda' and bool(rng.random() < 0.3)
        S, L, true = gen.trajectory(rng, N, T, cell, npt, step=float(rng.choice([0.05, 0.2, 0.44])), images=images, rot=rot,
                                    bias=float(rng.choice([0, 1])))
        c = dict(gen.base_case(), species=['Li'] * N, fwgiven=True, fw=[])
        if k % 5 == 4:
            c.update(species=mixed_species(rng, N), fwgiven=False)
        if k % 4 == 3 and T < 20:
            c['subT'] = int(rng.integers(2, 4))
            S, L = unused(rng, S, L, c['subT'])
        elif fmt == 'mda' and N > 2 and k % 5 != 4:
            c['subA'] = 2
        left = fmt != 'mda' and k % 4 in (1, 2)
        if left:
            S, L = left_handed(rng, S, L)
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='random', N=N, T=T, cell=cell, npt=npt, images=images, rot=rot,
                                                          left=left)))
    for k in range(ctx.size(18, 150)):          # cells that change a lot from frame to frame
        fmt = ['ase', 'pmg', 'mda'][k % 3]
        cell = ['ortho', 'tric', 'cubic'][(k // 3) % 3]
        T, N = int(rng.choice([3, 6, 12])), int(rng.choice([2, 4]))
        images, rot = k % 4 == 3, fmt != 'mda' and k % 5 == 4
        S, L, _ = gen.trajectory(rng, N, T, cell, 'wild', step=0.3, images=images, rot=rot)
        c = dict(gen.base_case(), species=['Li'] * N, fwgiven=True, fw=[])
        if (k // 3) % 2:
            c['subT'] = int(rng.integers(2, 4))
            S, L = unused(rng, S, L, c['subT'])
        if fmt == 'mda' and N > 2 and (k // 3) % 4 > 1:
            c['subA'] = 2
        if fmt != 'mda' and k % 2:
            S, L = left_handed(rng, S, L)
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='wild', N=N, T=T, cell=cell, images=images, rot=rot)))
    ctx.judge('Trace_Pipeline', recs, ('displacement', 'shape'))
    ctx.notes['formats'] = {f: sum(r['label']['fmt'] == f for r in recs) for f in ('ase', 'pmg', 'mda')}

# ---------------------------------------------------------------------------------------------- C02
def c02(ctx):
    rng = ctx.rng
    scen = ctx.model('MC_Drift')
    recs = []
    # model histories through the base parser, three axes at a time carry different scales
    order = rng.permutation(len(scen))[:ctx.size(220, 4536)]
    for i in order:
        hist, mob, frw = scen[i]
        rows = [[[repr(float(x)), repr(float(-x)), repr(float(2 * x))] for x in h] for h in hist]
        c = dict(gen.base_case(), kind='disp', disp=rows, species=['Li'] * len(hist), mode='index', idx=[m - 1 for m in mob],
                 fwgiven=True, fw=[f - 1 for f in frw], lead=False)
        recs.append(record([c], run_base(c, rng), dict(kind='model', scen=[hist, mob, frw])))
    # whole trajectories: framework default, listed, empty; mobile atoms inside the framework; common motion
    for k in range(ctx.size(48, 400)):
        fmt = ['ase', 'pmg', 'mda'][k % 3]
        N = int(rng.integers(2, 8)); T = int(rng.integers(3, 12))
        npt = rng.random() < 0.3
        S, L, _ = gen.trajectory(rng, N, T, str(rng.choice(['cubic', 'ortho', 'tric'])), npt, step=0.15)
        if not npt and rng.random() < 0.6:      # a motion common to all atoms
            S = S + np.cumsum(rng.uniform(-0.2, 0.2, (T, 1, 3)), axis=0)
            S = S - np.floor(S)
        sp = mixed_species(rng, N)
        c = dict(gen.base_case(), species=sp)
        how = k // 3 % 4
        if how == 1:
            c.update(fwgiven=True, fw=[int(x) for x in rng.permutation(N)[:int(rng.integers(1, N + 1))]])
        elif how == 2:
            c.update(fwgiven=True, fw=[])
        elif how == 3:
            c.update(mode='index', names=[], idx=[int(x) for x in rng.permutation(N)[:int(rng.integers(1, N))]])
            if rng.random() < 0.5:
                c.update(fwgiven=True, fw=[int(x) for x in rng.permutation(N)[:int(rng.integers(1, N + 1))]])
        if len([x for x in sp if x == 'Li']) == N and how == 0:
            c['species'][0] = 'O'
            c['species'][1] = 'Li'
        if k % 7 == 6:
            c['sampling'] = 'single-origin'
        if fmt == 'mda' and how == 0 and k % 4 == 0:
            c['subA'] = 2
            if 'Li' not in c['species'][::2]:
                c['species'][0] = 'Li'
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='trajectory', N=N, T=T, how=how)))
    for k in range(ctx.size(3, 12)):            # frameworks of many atoms
        fmt = ['ase', 'pmg', 'mda'][k % 3]
        N, T = int(rng.integers(105, 300)), 3
        S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
        c = dict(gen.base_case(), species=['Li'] * 2 + ['O'] * (N - 2))
        if k % 2:
            c.update(fwgiven=True, fw=[int(x) for x in rng.permutation(N)[:N - 3]])
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='many', N=N, T=T)))
    for k in range(ctx.size(9, 60)):            # molecules against a framework
        fmt = ['ase', 'pmg', 'mda'][k % 3]
        nm, size, nf, T = 1 + (k // 3) % 3, int(rng.integers(1, 4)), int(rng.integers(3, 7)), 5
        N = nm * size + nf
        S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.1)
        perm = [int(x) for x in rng.permutation(N)]
        mols = [perm[m * size:(m + 1) * size] for m in range(nm)]
        S[:, perm[:nm * size]] = molecules(rng, nm, size, T, step=0.1)
        S = S + np.cumsum(rng.uniform(-0.15, 0.15, (T, 1, 3)), axis=0)
        S = S - np.floor(S)
        c = dict(gen.base_case(), species=['H'] * N, mode='mol', names=[], mols=[[i + 1 for i in m] for m in mols])
        if k % 4 == 3:
            c.update(fwgiven=True, fw=[i + 1 for i in perm[nm * size:][:int(rng.integers(0, nf + 1))]])
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='molecules', nm=nm, size=size, nf=nf)))
    # the same motion plus a common drift: the analysis objects (observed through their dictionary)
    for k in range(ctx.size(9, 60)):
        fmt = ['ase', 'pmg', 'mda'][k % 3]
        N, T = 5, 7
        S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.1, bias=1.0)
        c = dict(gen.base_case(), species=['Li', 'O', 'Li', 'O', 'Na'])
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='analysis', k=k), analyzer=['msd', 'mstd', 'mscd'][(k // 3) % 3]))
    ctx.judge('Trace_Pipeline', recs, ('displacement', 'shape'))
    ctx.notes['scenarios'] = len(order)

# ---------------------------------------------------------------------------------------------- C03
# names that contain one another, names of the same first letter, unrelated names
POOLS = [['C', 'Cl', 'Ca', 'Cs', 'Cu', 'Co'], ['N', 'Na', 'Ni', 'Ne', 'Nb', 'O'], ['S', 'Si', 'Sn', 'Sr', 'Os', 'O'],
         ['Li', 'O', 'Na', 'La', 'Cl', 'Zr'], ['H', 'Ho', 'Hf', 'O', 'B', 'Br'], ['I', 'Li', 'In', 'Ti', 'Ni', 'N']]
TYPES = [['1', '10', '11', '2', '21', '12'], ['c', 'C', 'ca', 'CA', 'CA1', 'A'], ['OW', 'HW', 'O', 'W', 'H', 'HW1']]

def renaming(rng, names, fmt):
    """A random one-to-one choice of names for the species of a scenario."""
    pool = POOLS + (TYPES * 2 if fmt == 'mda' else [])
    pool = pool[int(rng.integers(len(pool)))]
    return dict(zip(names, [str(x) for x in rng.permutation(pool)]))

def c03(ctx):
    rng = ctx.rng
    scen = ctx.model('MC_Select')
    recs = []
    order = rng.permutation(len(scen))[:ctx.size(330, 3729)]
    for j, i in enumerate(order):
        sp, mode, names, idx, fwgiven, fw, subA = scen[i]
        fmt = 'mda' if subA != 1 else ['ase', 'pmg', 'mda'][j % 3]
        N, T = len(sp), 3
        S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
        new = renaming(rng, sorted(set(sp) | set(names)), fmt)
        c = dict(gen.base_case(), species=[new[x] for x in sp], mode=mode, names=[new[x] for x in names], idx=idx,
                 fwgiven=fwgiven, fw=fw, subA=subA)
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='model', scen=scen[i])))
    for k in range(ctx.size(60, 500)):
        fmt = FORMATS[k % 5]
        N = int(rng.integers(3, 13)); T = int(rng.integers(3, 6))
        pool = list(renaming(rng, range(6), fmt).values())[:int(rng.integers(2, 7))]
        sp = [str(rng.choice(pool)) for _ in range(N)]
        S, L, _ = gen.trajectory(rng, N, T, str(rng.choice(['cubic', 'tric'])), step=0.2)
        c = dict(gen.base_case(), species=sp)
        m = int(rng.integers(6))
        if k % 12 == 11 and fmt in ('ase', 'pmg', 'xdat', 'file'):      # no element is called that
            c['names'], m = [sp[0].lower() if k % 24 == 11 else sp[0].upper() + 'x'], 0
        elif m <= 2:
            c['names'] = [str(x) for x in rng.permutation(pool + ['Ag'])[:int(rng.integers(1, len(pool) + 2))]]
        elif m <= 4:
            c.update(mode='index', names=[], idx=[int(x) for x in rng.permutation(N)[:int(rng.integers(1, N + 1))]])
            if rng.random() < 0.4:
                c['idx'].sort()
        else:
            c.update(mode='none', names=[])
        if rng.random() < 0.4:
            c.update(fwgiven=True, fw=[int(x) for x in rng.permutation(N)[:int(rng.integers(0, N + 1))]])
        if fmt == 'mda' and m <= 2 and rng.random() < 0.5 and not c['fwgiven']:
            c['subA'] = int(rng.integers(2, 5))
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='random', N=N, m=m),
                                  analyzer=[None, 'msd', 'mstd', 'mscd'][k % 4] if k % 2 else None))
    for k in range(ctx.size(3, 12)):            # many atoms
        fmt = FORMATS[k % 5]
        N, T = int(rng.integers(105, 200)), 3
        S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
        sp = [str(x) for x in rng.choice(['Li', 'O', 'Na', 'Cl'], N)]
        c = dict(gen.base_case(), species=sp, names=['Na', 'Li'], fwgiven=True, fw=[N - 1, 101])
        if k % 3 == 2:
            c.update(mode='index', names=[], idx=[int(x) for x in rng.permutation(N)[:104]])
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='many', N=N)))
    # indices cannot be combined with atom sub-sampling; decorated species of pymatgen
    for k in range(ctx.size(6, 20)):
        N, T = 6, 4
        S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
        c = dict(gen.base_case(), species=['Li', 'O', 'Li', 'Na', 'O', 'Li'])
        if k % 3 == 0:
            c.update(mode='index', names=[], idx=[2, 0], subA=2)
            recs.append(parser_record('mda', c, S, L, rng, dict(kind='indices and sub_sample_atoms')))
        else:
            sp = ['Li+', 'O2-', 'Li+', 'Na+', 'O2-', 'Li+']
            c.update(species=sp, names=['Li+'] if k % 3 == 1 else ['Na+', 'Li+'])
            recs.append(parser_record('pmg', c, S, L, rng, dict(kind='decorated')))
    ctx.judge('Trace_Pipeline', buildable(recs), ('selection', 'displacement', 'shape'))
    ctx.notes['scenarios'] = len(order)

# ---------------------------------------------------------------------------------------------- C04
def molecules(rng, nm, size, T, span=0.14, L=None, rigid=False, step=0.15):
    """Fractional coordinates (T, nm*size, 3) of nm tumbling molecules."""
    cen = rng.uniform(0, 1, (nm, 1, 3))
    off = rng.uniform(-span, span, (nm, size, 3))
    fr = []
    for t in range(T):
        fr.append((cen + off).reshape(-1, 3))
        cen = cen + rng.uniform(-step, step, (nm, 1, 3))
        if not rigid:
            off = np.clip(off + rng.uniform(-0.03, 0.03, off.shape), -span, span)
    S = np.array(fr)
    return S - np.floor(S)

def c04(ctx):
    rng = ctx.rng
    scen = ctx.model('MC_Mol')
    recs = []
    # the model's moves: 12 molecules of one size at a time, three axes = three moves
    by = {}
    for offs, wt, at, to in scen:
        by.setdefault((len(offs), tuple(wt)), []).append((offs, at, to))
    keys = sorted(by)
    for key in keys:
        moves = by[key]
        rng.shuffle(moves)
        take = ctx.size(36, len(moves) // 3 * 3)
        moves = moves[:take]
        for b in range(0, len(moves), 36):
            part = moves[b:b + 36]
            part = part[:len(part) // 3 * 3]
            if len(part) < 6:
                continue
            nm, size = len(part) // 3, key[0]
            A = np.zeros((2, nm, size, 3))
            for m in range(nm):
                for ax in range(3):
                    offs, at, to = part[3 * m + ax]
                    for i in range(size):
                        A[0, m, i, ax] = (at + offs[i]) / 7
                        A[1, m, i, ax] = (to + offs[i]) / 7
            A = A + 1 / 56
            S = A.reshape(2, -1, 3)
            S = S - np.floor(S)
            perm = rng.permutation(nm * size)                 # atoms of a molecule need not be adjacent
            S = S[:, perm]
            where = np.argsort(perm)
            mols = [[int(where[m * size + i]) + 1 for i in range(size)] for m in range(nm)]
            fmt = ['ase', 'pmg', 'mda'][len(recs) % 3]
            L = np.array([gen.lattice(rng, 'ortho')] * 2)
            c = dict(gen.base_case(), species=['H'] * (nm * size), mode='mol', names=[], mols=mols, massgiven=True,
                     masses=[rnd(w) for w in key[1]])
            recs.append(parser_record(fmt, c, S, L, rng, dict(kind='model', key=str(key))))
    for k in range(ctx.size(54, 500)):
        fmt = FORMATS[k % 5]
        nm, size, T = int(rng.integers(1, 5)), int(rng.integers(1, 6)), int(rng.integers(3, 9))
        if k % 6 == 5:
            nm, size = int(rng.integers(1, 3)), int(rng.choice([6, 7, 8, 10, 15, 24]))
        nf = int(rng.integers(0, 4))
        N = nm * size + nf
        npt = rng.random() < 0.2
        cell = str(rng.choice(['cubic', 'ortho', 'tric']))
        Sf, L, _ = gen.trajectory(rng, N, T, cell, npt, step=0.15)
        Sm = molecules(rng, nm, size, T, span=float(rng.choice([0.05, 0.14])), rigid=bool(rng.random() < 0.3))
        S = Sf
        perm = [int(x) for x in rng.permutation(N)] if rng.random() < 0.6 else list(range(N))
        mols = []
        for m in range(nm):
            ids = perm[m * size:(m + 1) * size]
            S[:, ids] = Sm[:, m * size:(m + 1) * size]
            mols.append([i + 1 for i in ids])
        if not npt and rng.random() < 0.4:      # written in other periodic images
            S = S + rng.integers(-2, 3, S.shape if rng.random() < 0.5 else (1, N, 3))
        sp = [str(rng.choice(['C', 'H', 'O'])) for _ in range(N)]
        c = dict(gen.base_case(), species=sp, mode='mol', names=[], mols=mols)
        if rng.random() < 0.6:
            c.update(massgiven=True, masses=[rnd(rng.choice([1.008, 12.011, 15.999, 0.5, 100.0])) for _ in range(size)])
        f = int(rng.integers(4))
        if f == 0:
            c.update(fwgiven=True, fw=[])
        elif f == 1:
            c.update(fwgiven=True, fw=[int(x) + 1 for x in rng.permutation(N)[:int(rng.integers(1, N + 1))]])
        if k % 11 == 10 and size > 1:
            c['mols'][-1] = c['mols'][-1][:-1]
            if nm == 1:
                c['mols'].append(list(range(1, size)) + [1, 2])
        elif k % 11 == 9:
            c.update(massgiven=True, masses=['1.0'] * (size + 1))
        elif k % 11 == 8:
            c['sampling'] = 'single-origin'
        recs.append(parser_record(fmt, c, S, L, rng, dict(kind='random', nm=nm, size=size, nf=nf, T=T, f=f, npt=bool(npt)),
                                  analyzer=[None, 'msd', 'mstd', 'mscd'][k % 4]))
    ctx.judge('Trace_Pipeline', buildable(recs), ('selection', 'displacement', 'shape'))

# ---------------------------------------------------------------------------------------------- C05
def random_rows(rng, N, n):
    return [[[rnd(x) for x in v] for v in a] for a in np.round(np.cumsum(rng.normal(size=(N, n, 3)), axis=1), 6)]

def c05(ctx):
    rng = ctx.rng
    scen = ctx.model('MC_Intervals', ctx.size('MC_Intervals.cfg', 'MC_Intervals_big.cfg'))
    recs = []
    order = rng.permutation(len(scen))[:ctx.size(420, 20000)]
    for i in order:
        n, mins, maxs, nst, spc = scen[i]
        ts, skip = [(1.0, 1), (0.1, 1), (0.3, 7), (0.002, 50), (0.05, 3), (0.0241888433, 1), (1 / 3, 5)][int(rng.integers(7))]
        st = ts * skip
        c = dict(gen.base_case(), kind='disp', disp=random_rows(rng, 2, n), species=['Li'] * 2, mode='index', idx=[0, 1],
                 fwgiven=True, fw=[], lead=False, ts=rnd(ts), skip=skip, nsteps=nst, spacing=spc)
        if mins >= 0:
            c.update(minset=True, mindt=rnd(mins / 2 * st))
        if maxs >= 0:
            c.update(maxset=True, maxdt=rnd(maxs / 2 * st))
        recs.append(record([c], run_base(c, rng), dict(kind='model', scen=scen[i], ts=ts, skip=skip)))
    for k in range(ctx.size(90, 900)):
        n = int(rng.choice([2, 3, 10, 60, 61, 100, 101, 102, 150, 250, 333]))
        c = dict(gen.base_case())
        if k % 3:
            N = int(rng.integers(1, 3))
            options(rng, c, n)
            c['subT'] = 1
            c.update(kind='disp', disp=random_rows(rng, N, n), species=['Li'] * N, mode='index', idx=list(range(N)),
                     fwgiven=True, fw=[], lead=False)
            c['minset'], c['maxset'] = False, False
            st = float(c['ts']) * c['skip']
            lo = 1
            if rng.random() < 0.5:
                lo = int(rng.integers(0, n + 1))
                part = PARTS[int(rng.integers(len(PARTS)))] if rng.random() < 0.4 else 0
                c.update(minset=True, mindt=rnd((lo + part) * st))
            if rng.random() < 0.5 and max(lo, 1) < n:
                part = PARTS[int(rng.integers(len(PARTS)))] if rng.random() < 0.4 else 0
                lo1 = max(lo, 1) + (part > 0)
                if lo1 < n + (part == 0):
                    c.update(maxset=True, maxdt=rnd((int(rng.integers(lo1, n + (part == 0))) + part) * st))
            if c['spacing'] == 'logarithmic' and n > 160:
                c['nsteps'] = min(c['nsteps'], 30)
            if k % 17 == 16:
                c['spacing'] = str(rng.choice(['Linear', 'log', '', 'quadratic']))
            recs.append(record([c], run_base(c, rng), dict(kind='random base', n=n)))
        else:
            fmt = FORMATS[(k // 3) % 5]
            T = min(n, 40)
            T = max(T, 3)
            N = int(rng.integers(1, 4)) if fmt != 'mda' else int(rng.integers(2, 6))
            S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
            c['species'] = ['Li'] * N
            options(rng, c, T)
            if fmt == 'mda' and N > 2:        # at least two atoms are left: an analysis of one atom may have no estimates
                c['subA'] = int(rng.choice([1, 2, 2]))
            recs.append(parser_record(fmt, c, S, L, rng, dict(kind='random file', T=T, N=N),
                                      analyzer=[None, 'msd', 'mstd', 'mscd'][k % 4]))
    # more steps than intervals are reported by default
    for k, fmt in enumerate(['base', *FORMATS]):
        for r in range(ctx.size(1, 4)):
            N, T = 2, int(rng.integers(104, 150))
            c = dict(gen.base_case(), species=['Li'] * N, fwgiven=True, fw=[], omit=True)
            c['spacing'] = ['linear', 'logarithmic'][k % 3 == 2 and r % 2]
            if fmt == 'base':
                c.update(kind='disp', disp=random_rows(rng, N, T), mode='index', idx=list(range(N)), lead=False)
                recs.append(record([c], run_base(c, rng), dict(kind='default', n=T)))
            else:
                S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
                recs.append(parser_record(fmt, c, S, L, rng, dict(kind='default', T=T), analyzer=[None, 'msd', 'mstd', 'mscd'][(k + ctx.seed) % 4]))
    ctx.judge('Trace_Pipeline', buildable(recs), ('time-axis', 'interval'))
    ctx.notes['scenarios'] = len(order)

# ---------------------------------------------------------------------------------------------- C06
def c06(ctx):
    rng = ctx.rng
    scen = ctx.model('MC_Intervals')
    recs = []
    order = rng.permutation(len(scen))[:ctx.size(150, 2616)]
    for i in order:
        n, mins, maxs, nst, spc = scen[i]
        N = int(rng.integers(1, 4))
        c = dict(gen.base_case(), kind='disp', disp=random_rows(rng, N, n), species=['Li'] * N, mode='index', idx=list(range(N)),
                 fwgiven=True, fw=[], lead=False, nsteps=nst, spacing=spc,
                 sampling=str(rng.choice(['multi-origin', 'multi-origin', 'single-origin'])))
        if mins >= 0:
            c.update(minset=True, mindt=rnd(mins / 2))
        if maxs >= 0:
            c.update(maxset=True, maxdt=rnd(maxs / 2))
        recs.append(record([c], run_base(c, rng), dict(kind='model', scen=scen[i]), ivl=False))
    for k in range(ctx.size(70, 600)):
        T = int(rng.choice([3, 4, 6, 9, 13, 20, 33])); N = int(rng.choice([1, 1, 2, 3, 4]))
        if k % 10 == 9:
            T, N = 140, 2
        c = dict(gen.base_case(), species=['Li'] * N)
        options(rng, c, T)
        if k % 13 == 12:
            c['sampling'] = str(rng.choice(['multi', 'single', 'Multi-origin', '']))
        if k % 3:
            fmt = FORMATS[k % 5]
            S, L, _ = gen.trajectory(rng, N, T, str(rng.choice(['ortho', 'tric'])), step=0.2)
            if k % 4 == 0 and N > 1:
                c['species'] = ['O'] + ['Li'] * (N - 1)
            recs.append(parser_record(fmt, c, S, L, rng, dict(kind='random file', T=T, N=N), ivl=False,
                                      analyzer=[None, 'msd', 'mstd', 'mscd'][k % 4]))
        else:
            c['subT'] = 1
            c['minset'] = c['maxset'] = False
            c.update(kind='disp', disp=random_rows(rng, N, T), species=['Li'] * N, mode='index', idx=list(range(N)),
                     fwgiven=True, fw=[], lead=False)
            recs.append(record([c], run_base(c, rng), dict(kind='random base', T=T, N=N), ivl=False))
    # motion that repeats itself: equal observations are still observations
    for k in range(ctx.size(10, 60)):
        T, N = int(rng.choice([6, 9, 15])), int(rng.choice([1, 1, 2, 3]))
        x = np.arange(1, T + 1)[None, :, None]
        v = np.round(rng.normal(size=(N, 1, 3)), 3)
        x = [x * v, x * v * [0, 1, 1], (x % 3) * v, x * 0 * v, x * np.ones((N, 1, 3)) * 0.5][k % 5]
        rows = [[[rnd(z) for z in y] for y in a] for a in x]
        c = dict(gen.base_case(), kind='disp', disp=rows, species=['Li'] * N, mode='index', idx=list(range(N)),
                 fwgiven=True, fw=[], lead=False, sampling='multi-origin' if k % 4 else 'single-origin')
        recs.append(record([c], run_base(c, rng), dict(kind='repeating', T=T, N=N, how=k % 5), ivl=False))
    # long runs: every start point counts, however many there are
    for k in range(ctx.size(2, 12)):
        T, N = (10500, 1) if k == 0 else (int(rng.integers(900, 2600)), int(rng.integers(1, 4)))
        m = int(rng.integers(2, 30))
        c = dict(gen.base_case(), kind='disp', disp=random_rows(rng, N, T), species=['Li'] * N, mode='index', idx=list(range(N)),
                 fwgiven=True, fw=[], lead=False, nsteps=int(rng.choice([2, 3])), maxset=True, maxdt=rnd(m))
        recs.append(record([c], run_base(c, rng), dict(kind='long', T=T, N=N), ivl=False))
    recs = buildable(recs)
    ctx.judge('Trace_Pipeline', recs, ('displacement', 'shape', 'time-axis', 'intervals-in-range'))
    ctx.notes['scenarios'] = len(order)

def buildable(recs):
    """The analysis objects cannot be built without any observation: such runs are not judged."""
    return [r for r in recs if not (r['label'].get('analyzer') or r['label'].get('fmt') in ('xdat', 'file'))
            or has_windows(r['reps'][0]) or r['reps'][0]['mode'] == 'none']

def has_windows(c):
    """A single mobile atom may leave no observation at all (none at all is an error in any case)."""
    m = len(c['mols']) if c['mode'] == 'mol' else len(c['idx']) if c['mode'] == 'index' else sum(s in c['names'] for s in c['species'])
    return m != 1 or (c['sampling'] == 'multi-origin' and not c['minset'] and len(c['frames']) // c['subT'] >= 6)

# ---------------------------------------------------------------------------------------------- C08
def split(rng, seq, parts):
    cut = sorted(int(x) for x in rng.choice(np.arange(1, len(seq)), size=parts - 1, replace=False)) if parts > 1 else []
    return [seq[a:b] for a, b in zip([0] + cut, cut + [len(seq)])]

def replica_case(rng, fmt, kind, dtype, k, estimates=None, **force):
    """One analysis of several trajectories. Returns the record."""
    N = int(rng.integers(2, 5)); T = int(rng.integers(6, 12))
    if force.pop('long', False):
        N, T = 2, int(rng.integers(70, 110))
    sp = mixed_species(rng, N) if fmt not in ('xdat', 'file') else sorted(mixed_species(rng, N))
    if sp.count('Li') < 2:
        sp[0] = sp[-1] = 'Li'
    c = dict(gen.base_case(), species=sp)
    options(rng, c, T)
    c['sampling'] = 'multi-origin' if k % 5 else 'single-origin'
    if rng.random() < 0.5:
        c.update(fwgiven=True, fw=[])
    if T > 60:
        c.update(subT=1, minset=False, maxset=False, nsteps=[T, 100][k % 2], spacing='linear')
    c.update(force)
    cell = 'ortho' if rng.random() < 0.6 else 'tric'
    label = dict(fmt=fmt, analyzer=kind, dtype=dtype, N=N, T=T)
    if dtype == 'consecutive':
        S, L, _ = gen.trajectory(rng, N, T, cell, step=0.2)
        parts = int(rng.integers(1, 4))
        how = int(rng.integers(6))
        ends = split(rng, list(range(T)), parts)
        if how == 0:                    # parts of a single frame
            ends = [list(range(T - 1)), [T - 1]]
        elif how == 1:
            ends = [[0], list(range(1, T - 2)), [T - 2], [T - 1]]
        elif how == 2:
            ends = [[t] for t in range(T)]
        parts = len(ends)
        if rng.random() < 0.4 and how > 2:          # nothing moves from one part to the next
            for q in ends[1:]:
                S[q[0]], L[q[0]] = S[q[0] - 1], L[q[0] - 1]
        traj = [MAKE[fmt](S[q[0]:q[-1] + 1], L[q[0]:q[-1] + 1], sp) for q in ends]
        if how == 3:                    # the same part again
            traj.append(traj[0])
            S, L = np.concatenate([S, S[:len(ends[0])]]), np.concatenate([L, L[:len(ends[0])]])
            parts += 1
        reps = [spec_input(fmt, c, S, L)]
        label['parts'] = parts
    else:
        R = int(rng.integers(1, 5)) if rng.random() < 0.6 else int(rng.integers(5, 9))
        SL = [gen.trajectory(rng, N, T, cell, step=0.2) for _ in range(R)]
        traj = [MAKE[fmt](s, l, sp) for s, l, _ in SL]
        if rng.random() < 0.3:          # a replica that is there twice counts twice
            SL, traj = SL + SL[:1], traj + traj[:1]
            R += 1
        reps = [spec_input(fmt, c, s, l) for s, l, _ in SL]
        label['replicas'] = R
    kw = {}
    if kind == 'mscd':
        kw['ionic_charge'] = 1 if rng.random() < 0.5 else -2
    obs, a = run_analysis(kind, fmt, traj, parser_params(reps[0], fmt), rng, dtype=dtype, **kw)
    if a is not None and estimates is not None:
        estimates.append(dict(obj=a, kind=kind, label=label, charge=kw.get('ionic_charge', 1)))
    rt, at, vrt = TOL[fmt]
    return record(reps, obs, label, rt, at, True, vrt)

def c08(ctx):
    import estim_checks as E
    rng = ctx.rng
    ctx.model_later('MC_Combine')
    recs, est, k = [], [], 0
    for rounds in range(ctx.size(2, 14)):
        for kind in ('msd', 'mstd', 'mscd'):
            for fmt in FORMATS:
                for dtype in ('consecutive', 'identical'):
                    if fmt == 'mda' and dtype == 'consecutive':
                        continue
                    k += 1
                    recs.append(replica_case(rng, fmt, kind, dtype, k, est if k % 3 == 0 else None))
    for k in range(ctx.size(5, 30)):            # more intervals
        recs.append(replica_case(rng, FORMATS[k % 5], ['msd', 'mstd', 'mscd'][k % 3], 'identical' if k % 5 == 2 or k // 5 % 2 == 0 else 'consecutive', k, None, long=True))
    # an unknown combination mode is refused
    bad = []
    for kind in ('msd', 'mstd', 'mscd'):
        for fmt in FORMATS:
            S, L, _ = gen.trajectory(rng, 2, 5, 'ortho')
            c = dict(gen.base_case(), species=['Li', 'Li'], fwgiven=True, fw=[])
            for dtype in ('Identical', 'parallel') + (('consecutive',) if fmt == 'mda' else ()):
                obs, _ = run_analysis(kind, fmt, [MAKE[fmt](S, L, c['species'])], parser_params(c, fmt), rng, dtype=dtype)
                bad.append(dict(label=dict(kind=kind, fmt=fmt, dtype=dtype), err=obs['err']))
    ctx.judge('Trace_Pipeline', recs, ('displacement', 'shape', 'time-axis', 'interval', 'count', 'volume'))
    ctx.judge('Trace_Refused', bad)
    E.judge_estimates(ctx, est)

# ---------------------------------------------------------------------------------------------- C09
def c09(ctx):
    import estim_checks as E
    rng = ctx.rng
    ctx.model_later('MC_Intervals')
    recs, est = [], []
    for k in range(ctx.size(24, 160)):
        N = int(rng.integers(2, 6)); T = int(rng.integers(5, 12))
        npt = k % 3 == 2
        cell = ['cubic', 'ortho', 'tric'][k % 3 if not npt else (k // 3) % 3]
        S, L, _ = gen.trajectory(rng, N, T, cell, npt, step=0.2)
        S = np.round(np.clip(S, 1e-3, 1 - 1e-3), 10)
        sp = sorted(mixed_species(rng, N))
        if sp.count('Li') < 2:
            sp[0] = sp[1] = 'Li'
            sp = sorted(sp)
        c = dict(gen.base_case(), species=sp)
        options(rng, c, T)
        m = int(rng.integers(4))
        if m == 0:
            c.update(mode='index', names=[], idx=[int(x) for x in rng.permutation(N)[:max(2, N - 1)]])
        elif m == 1:
            nm = N // 2
            c.update(mode='mol', names=[], mols=[[2 * i + 1, 2 * i + 2] for i in range(nm)], massgiven=bool(k % 2), masses=['1.5', '4.0'] if k % 2 else [])
            S[:, 1:2 * nm:2] = S[:, 0:2 * nm - 1:2] + rng.uniform(0.02, 0.2, (1, nm, 3))
            S = np.round(S - np.floor(S), 10)
        if rng.random() < 0.3:
            c.update(fwgiven=True, fw=[] if rng.random() < 0.5 else [1])
        kind = ['msd', 'mstd', 'mscd'][k % 3]
        atoms = len(c['mols']) if c['mode'] == 'mol' else len(c['idx']) if c['mode'] == 'index' else sp.count('Li')
        o = dict(dim=E.DIMS[int(rng.integers(len(E.DIMS)))], sub=int(rng.choice([1, 1, 2])), block=bool(k % 4 == 3))
        if kind != 'msd' and o['block']:
            o['sub'] = 1
        q = E.charges(rng, atoms) if kind == 'mscd' else 1
        o['block'] = o['block'] and bool(np.any(q))
        up = dict(dimension=o['dim'], sub_sample_dt=o['sub'], block=o['block'])
        if k // 3 % 4 == 1:                  # all left to the defaults
            o, up = dict(dim='xyz', sub=1, block=False), 'omit'
            q = 1 if k % 24 > 12 else q
        kw = dict(ionic_charge=q) if kind == 'mscd' and not (up == 'omit' and k % 24 > 12) else {}
        for fmt in FORMATS:
            cf = dict(c)
            if fmt in ('pmg', 'xdat', 'file'):
                for key in ('ts', 'mindt', 'maxdt'):
                    cf[key] = rnd(float(c[key]) * 1000)
            cf = spec_input(fmt, cf, S, L)
            rt, at, vrt = TOL[fmt]
            traj = MAKE[fmt](S, L, sp)
            obs, a = run_analysis(kind, fmt, traj, parser_params(cf, fmt), rng, up=up, **kw)
            label = dict(fmt=fmt, analyzer=kind, N=N, T=T, npt=npt, cell=cell, m=m)
            recs.append(record([cf], obs, label, rt, at, True, vrt))
            if a is not None:
                est.append(dict(obj=a, kind=kind, label=dict(label, **{x: str(y) for x, y in o.items()}), charge=q, opts=o))
    recs = [r for r in recs if has_windows(r['reps'][0])]
    ctx.judge('Trace_Pipeline', recs)
    E.judge_estimates(ctx, est)

# ---------------------------------------------------------------------------------------------- C22
def c22(ctx):
    rng = ctx.rng
    ctx.model_later('MC_Intervals')
    recs = []
    for k in range(ctx.size(70, 600)):
        T = int(rng.choice([3, 5, 8, 20, 60])); N = int(rng.choice([2, 3, 5]))
        if k < 8:               # long ones, and many intervals
            T, N = [450, 130][k % 2], 2
        M = int(rng.integers(1, N + 1))           # mobile atoms
        if M == 1 and T < 5:
            M = 2
        fmt = ['base', 'base32', 'ase', 'pmg', 'mda', 'ase:msd', 'pmg:mscd', 'mda:mstd'][k % 8 if k >= 8 else (k % 4 // 2) * 2 + (k // 4)]
        if ':' in fmt and M < 2:
            M = 2
        c = dict(gen.base_case(), species=['Li'] * M + ['O'] * (N - M))
        if T > 100:
            c['nsteps'] = T if T < 200 else [40, 100][k // 2 % 2]
        elif rng.random() < 0.45:
            c['nsteps'] = int(rng.choice([1, 2, 3, 4]))
        if T < 100 and rng.random() < 0.3:
            c.update(maxset=True, maxdt=rnd(max(2, T // 2)))
        c['sampling'] = 'multi-origin' if k % 4 else 'single-origin'
        ivals = sorted({int(x) for x in np.linspace(1, int(float(c['maxdt'])) if c['maxset'] else T, min(c['nsteps'], T), dtype=int)})
        item = 4 if fmt in ('base32',) or fmt.startswith('mda') else 8
        if fmt.startswith('base'):
            dt = np.float32 if fmt == 'base32' else np.float64
            c.update(kind='disp', disp=random_rows(rng, N, T), mode='index', idx=list(range(M)), names=[], fwgiven=True,
                     fw=list(range(M, N)) if k % 3 else [], lead=False)
            S = L = None
        else:
            S, L, _ = gen.trajectory(rng, N, T, 'ortho', step=0.2)
            c = spec_input(fmt.split(':')[0], c, S, L)
            if fmt.startswith('mda'):         # the precision a reader keeps is its own affair: an unlimited run shows it
                q, e, _, _ = attempt(PARSERS['mda'], MAKE['mda'](S, L, c['species']), **parser_params(c, 'mda'))
                if not e and len(q.disp_3d):
                    item = int(np.asarray(q.disp_3d[0]).dtype.itemsize)
        need = sum(M * 3 * (T - i + 1) for i in ivals) * item * 1e-9
        f = float(rng.choice([0.5, 0.999, 0.99999, 1.00001, 1.001, 1.2, 2.0, 1e6, 1e-6] if T < 100 else [0.9995, 0.99999, 0.99999, 0.9999]))
        lim = need * f
        named = False
        label = dict(fmt=fmt, T=T, N=N, M=M, factor=f, sampling=c['sampling'])
        if fmt.startswith('base'):
            obs = run_base(c, rng, memory_limit=lim, dtype=dt)
            tol = ('1e-5', '1e-4', '1e-5') if fmt == 'base32' else TOL['ase']
        else:
            f0 = fmt.split(':')[0]
            pp = parser_params(c, f0)
            pp['memory_limit'] = lim
            traj = MAKE[f0](S, L, c['species'])
            tol = TOL[f0]
            if ':' in fmt:
                obs, _ = run_analysis(fmt.split(':')[1], f0, traj, pp, rng)
            else:
                p, err, msg, w = attempt(PARSERS[f0], traj, **pp)
                obs = no_obs(err, msg) if err else observe(p.delta_t, p.disp_3d, getattr(p, '_n_o', None), p.volume, rng)
        for x in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', obs['msg']):
            named = named or abs(float(x) - lim) <= 0.06 * lim
        recs.append(record([c], obs, label, tol[0], tol[1], True, tol[2], mem=repr(lim), item=item, named=named))
    # needs of gigabytes: refused, as the arrays are not made
    big = []
    for k in range(ctx.size(6, 24)):
        dt, N, T = [np.float64, np.float32][k % 2], int(rng.choice([800, 1000])), int(rng.choice([900, 1200]))
        c = dict(gen.base_case(), kind='disp', spacing=['linear', 'logarithmic'][k % 3 == 2], nsteps=[100, 150][k % 2], lead=False)
        need = 3e-9 * N * c['nsteps'] * T * 0.5 * (4 if k % 2 else 8)       # roughly; the specification knows better
        lim = float('%.4g' % (need * float(rng.choice([0.3, 0.05, 0.001]))))
        if c['spacing'] == 'linear' and k % 3 == 0:     # close below it
            N, T = int(rng.integers(1500, 2200)), int(rng.integers(1500, 1800))
            need = sum(3e-9 * N * (T - i + 1) for i in set(np.linspace(1, T, c['nsteps'], dtype=int).tolist())) * (4 if k % 2 else 8)
            lim = float('%.4g' % (need * float(rng.choice([0.95, 0.97, 0.999]))))
        _, err, msg, w = attempt(lambda: Parser(np.zeros((N, T, 3), dtype=dt), np.arange(N), [], 1.0, 1, n_steps=c['nsteps'], spacing=c['spacing'], memory_limit=lim, progress=False))
        named = any(abs(float(x) - lim) <= 0.06 * lim for x in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', msg))
        big.append(dict(label=dict(N=N, T=T, dtype=str(dt), limit=lim, about=need), c=c, n=T, N=N, item=4 if k % 2 else 8, mem=repr(lim), err=err, named=named))
    # limits that are just what is needed, where this is the same number however it is added up
    ties = 0
    for k in range(4000):
        if ties == ctx.size(10, 40):
            break
        M, T, p, item = int(rng.integers(1, 30)), int(rng.integers(6, 80)), int(rng.integers(2, 12)), [8, 4][int(rng.integers(2))]
        by = [M * 3 * (T - i + 1) * item for i in sorted({int(x) for x in np.linspace(1, T, min(p, T), dtype=int)})]
        lim, B = float('%de-9' % sum(by)), sum(by)
        if all(x == lim for x in (B * 1e-9, B / 1e9, B / 10**9, sum(b * 1e-9 for b in by), sum(b / 1e9 for b in by), B / 1000 / 1000 / 1000, B * 1e-3 * 1e-6,
                                  B * 1e-6 * 1e-3, B / 1e6 / 1e3, sum(b // item for b in by) * item * 1e-9, B / item * (item * 1e-9))):
            ties += 1
            c = dict(gen.base_case(), kind='disp', nsteps=p, lead=False)
            rows = rng.normal(size=(M, T, 3)).astype([np.float32, np.float64][item == 8])
            _, err, msg, w = attempt(lambda: Parser(rows, np.arange(M), [], 1.0, 1, n_steps=p, memory_limit=lim, progress=False))
            big.append(dict(label=dict(M=M, T=T, item=item, limit=lim, what='exactly the need'), c=c, n=T, N=M, item=item, mem=repr(lim), err=err, named=False))
    ctx.notes['limit_equals_need'] = ties
    ctx.judge('Trace_Memory', big)
    ctx.judge('Trace_Pipeline', recs, ('memory', 'displacement', 'shape', 'count', 'time-axis', 'interval'))
