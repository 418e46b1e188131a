"""Building solvers and solutions for the workloads (public API only)."""
import logging
import numpy as np
from clawpack import pyclaw

logging.disable(logging.CRITICAL)
np.seterr(all='ignore')

CLASSIC = {1: pyclaw.ClawSolver1D, 2: pyclaw.ClawSolver2D, 3: pyclaw.ClawSolver3D}
SHARP = {1: pyclaw.SharpClawSolver1D, 2: pyclaw.SharpClawSolver2D, 3: pyclaw.SharpClawSolver3D}
NAMES = ['x', 'y', 'z']


def domain(num_cells, lower=None, upper=None):
    nd = len(num_cells)
    lower = lower or [0.] * nd
    upper = upper or [1.] * nd
    dims = [pyclaw.Dimension(lower[i], upper[i], num_cells[i], name=NAMES[i]) for i in range(nd)]
    return pyclaw.Domain(dims)


def solution(num_cells, meqn, maux=0, seed=0, lower=None, upper=None, smooth=False, capa=-1, amp=1.0, base=0.0, spike=False):
    dom = domain(num_cells, lower, upper)
    state = pyclaw.State(dom, meqn, maux)
    r = np.random.RandomState(seed)
    state.q[...] = base + amp * data(r, (meqn,) + tuple(num_cells), smooth)
    if maux:
        state.aux[...] = r.uniform(0.5, 1.5, (maux,) + tuple(num_cells))
        if capa >= 0:
            state.aux[capa] = r.uniform(0.4, 2.0, tuple(num_cells))
            state.index_capa = capa
            if spike:      # one small cell decides the Courant number
                state.aux[(capa,) + tuple(r.randint(0, k) for k in num_cells)] = .05
    return pyclaw.Solution(state, dom)


def data(r, shape, smooth):
    """random data: a mixture of smooth parts, jumps, flat pieces and noise"""
    q = np.zeros(shape)
    n = shape[1:]
    X = np.meshgrid(*[(np.arange(k) + .5) / k for k in n], indexing='ij')
    for m in range(shape[0]):
        f = np.zeros(n)
        for _ in range(3):
            k = [r.randint(0, 3) for _ in n]
            ph = r.uniform(0, 2 * np.pi)
            f += r.uniform(-1, 1) * np.cos(2 * np.pi * sum(a * b for a, b in zip(k, X)) + ph)
        if not smooth:
            for _ in range(2):
                box = np.ones(n, dtype=bool)
                for x in X:
                    a, b = sorted(r.uniform(0, 1, 2))
                    box &= (x > a) & (x < b)
                f += r.uniform(-1, 1) * box
            if r.rand() < .5:
                f += 0.3 * r.randn(*n)
            if r.rand() < .3:
                f = np.round(f * 2) / 2          # flat pieces: exact zero jumps
        q[m] = f
    return q


def set_bcs(solver, lower, upper, aux_lower=None, aux_upper=None):
    nd = solver.num_dim
    for i in range(nd):
        solver.bc_lower[i] = lower[i]; solver.bc_upper[i] = upper[i]
        solver.aux_bc_lower[i] = (aux_lower or lower)[i]; solver.aux_bc_upper[i] = (aux_upper or upper)[i]


def interior(a, ng):
    return a[(slice(None),) + (slice(ng, -ng),) * (a.ndim - 1)]
