"""Reference fill of ghost cells.  Dimensions are filled in order, lower side
before upper side, so that ghost corners hold what later dimensions derive from
the ghost layers of earlier ones."""
import numpy as np

CUSTOM, EXTRAP, PERIODIC, WALL = 0, 1, 2, 3


def embed(a, ng):
    out = np.zeros((a.shape[0],) + tuple(n + 2 * ng for n in a.shape[1:]))
    out[(slice(None),) + (slice(ng, -ng),) * (a.ndim - 1)] = a
    return out


def ghost_source(n, ng, kind, side):
    """interior-relative source cell (0-based) for ghost layer g = 1..ng counted from the boundary"""
    src = []
    for g in range(1, ng + 1):
        if kind == EXTRAP:
            src.append(0 if side == 0 else n - 1)
        elif kind == PERIODIC:
            src.append(n - g if side == 0 else g - 1)
        elif kind == WALL:
            src.append(g - 1 if side == 0 else n - g)
    return src


def fill(q, aux, ng, lower, upper, aux_lower, aux_upper, reflect, custom=None, old_sig=None):
    """q, aux: interiors.  custom(which, side, idim, qbc, auxbc) fills in place."""
    Q = embed(q, ng)
    A = embed(aux, ng) if aux is not None else None
    nd = q.ndim - 1
    for d in range(nd):
        n = q.shape[d + 1]
        for side in (0, 1):
            todo = []
            if A is not None:
                todo.append((A, (aux_lower, aux_upper)[side][d], 'aux'))
            todo.append((Q, (lower, upper)[side][d], 'q'))
            for arr, kind, name in todo:
                if kind == CUSTOM:
                    custom(name, side, d, Q, A)
                    continue
                V = np.moveaxis(arr, d + 1, 1)
                for g, src in enumerate(ghost_source(n, ng, kind, side), 1):
                    dst = ng - g if side == 0 else ng + n - 1 + g
                    V[:, dst] = V[:, ng + src]
                    if kind == WALL and name == 'q':
                        V[reflect[d], dst] = -V[reflect[d], ng + src]
    return Q, A
