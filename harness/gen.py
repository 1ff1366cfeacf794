"""Scenario generators for trajectories.  A scenario is plain data (JSON-able), so that it can be kept and replayed."""
import numpy as np

SPECIES = ['Li', 'O', 'Na', 'S', 'Cl']

def lattice(rng, kind, scale=None):
    a = rng.uniform(4, 12, 3) if scale is None else np.full(3, scale)
    if kind == 'cubic':
        return np.eye(3) * round(float(a[0]), 3)
    if kind == 'ortho':
        return np.diag(np.round(a, 3))
    # triclinic in the lower-triangular convention all formats share
    L = np.diag(np.round(a, 3))
    L[1, 0] = round(float(rng.uniform(-0.4, 0.4) * a[0]), 3)
    L[2, 0] = round(float(rng.uniform(-0.4, 0.4) * a[0]), 3)
    L[2, 1] = round(float(rng.uniform(-0.4, 0.4) * a[1]), 3)
    return L

def trajectory(rng, N, T, cell='ortho', npt=False, step=0.2, images=False, rot=False, bias=0.0):
    """Fractional coordinates (T, N, 3) in [0,1) (or other images) and lattices (T, 3, 3).

    step: largest step as a fraction of the cell; npt = 'wild': every frame has a cell of its own, and steps up to almost
    half of it, so that it matters which cell decides about the nearest image."""
    if npt == 'wild':
        return wild(rng, N, T, cell, step, images, rot)
    L0 = lattice(rng, cell)
    if rot:     # general orientation of the cell
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        L0 = np.round(L0 @ q, 4)
    s = rng.uniform(0, 1, (N, 3))
    fs, Ls = [], []
    L = L0
    for t in range(T):
        fs.append(s.copy())
        Ls.append(L.copy())
        d = rng.uniform(-step, step, (N, 3)) + bias * rng.uniform(0, step, (1, 3))
        s = s + np.clip(d, -0.44, 0.44)
        if npt:
            e = 3e-4 if npt == 'slight' else 0.02
            L = L0 * (1 + rng.uniform(-e, e, (1, 3)) if cell == 'ortho' else 1 + rng.uniform(-e, e))
    S = np.array(fs)
    true = S.copy()
    S = S - np.floor(S)
    if npt:
        # stay away from the faces, where rounding decides which image is meant
        S = np.where(S < 1e-6, 1e-6, np.where(S > 1 - 1e-6, 1 - 1e-6, S))
    elif images:
        S = S + rng.integers(-2, 3, S.shape)
    return S, np.array(Ls), true

def wild(rng, N, T, cell, step, images=False, rot=False):
    L0 = lattice(rng, cell)
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    Ls = []
    for t in range(T):
        L = L0 * (1 + rng.uniform(-0.2, 0.2)) if cell == 'cubic' else L0 * (1 + rng.uniform(-0.2, 0.2, (3, 3)))
        Ls.append(np.round(L @ q, 4) if rot else np.round(L, 4))
    s = rng.uniform(0, 1, (N, 3))
    fs = []
    for t in range(T):
        if t:
            f = rng.uniform(-step, step, (N, 3))
            big = rng.random((N, 3)) < 0.4
            f = np.where(big, np.sign(f) * rng.uniform(0.40, 0.49, f.shape), f)
            s = (s @ Ls[t - 1]) @ np.linalg.inv(Ls[t]) + f
            s = s - np.floor(s)
            if images:
                s = s + rng.integers(-2, 3, s.shape)
        u = s - np.floor(s)
        s = s + np.where(u < 1e-4, 1e-4, np.where(u > 1 - 1e-4, -1e-4, 0))
        s = np.round(s, 10)
        fs.append(s.copy())
    S = np.array(fs)
    return S, np.array(Ls), S

def base_case():
    return dict(kind='frames', frames=[], wrapf=False, species=[], subT=1, subA=1, mode='specie', names=['Li'], idx=[],
                mols=[], massgiven=False, masses=[], fwgiven=False, fw=[], ts='1.0', skip=1, unit='1', minset=False,
                mindt='0', maxset=False, maxdt='0', nsteps=100, spacing='linear', sampling='multi-origin', lead=True,
                disp=[])
