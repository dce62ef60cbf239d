"""Positive examples of C13: wrong (bad*) and merely rewritten (good*) variants of compared functions."""
import numpy as np

import falco


def bad__falco__dm__enforce_constraints(dm):
    """Bounds applied to the command instead of the total voltage."""
    if not hasattr(dm, 'dead_map'):
        dm.dead_map = np.zeros((dm.Nact, dm.Nact), dtype=bool)
        for k in dm.dead:
            dm.dead_map.ravel()[k] = True
    dm.V = dm.V * ~dm.dead_map
    low = np.nonzero(dm.V.flatten() < dm.Vmin)[0]
    high = np.nonzero(dm.V.flatten() > dm.Vmax)[0]
    bias = dm.biasMap.flatten()
    dm.pinned = np.hstack([np.hstack([dm.pinned, low]), high])
    dm.Vpinned = np.hstack([np.hstack([dm.Vpinned, dm.Vmin - bias[low]]), dm.Vmax - bias[high]])
    if dm.pinned.size > 0:
        v = dm.V.flatten()
        v[dm.pinned.astype(int)] = dm.Vpinned
        dm.V = v.reshape(dm.V.shape)
    if dm.tied.size > 0:
        v = dm.V.flatten()
        v[dm.tied[:, 1]] = v[dm.tied[:, 0]]
        dm.V = v.reshape(dm.V.shape)
    return dm


def good__falco__dm__enforce_constraints(dm):
    if not hasattr(dm, 'dead_map'):
        dm.dead_map = np.zeros((dm.Nact, dm.Nact), dtype=bool)
        for k in dm.dead:
            dm.dead_map.ravel()[k] = True
    V = dm.V * ~dm.dead_map
    bias = dm.biasMap.flatten()
    total = (dm.biasMap + V).flatten()
    low = np.nonzero(dm.Vmin > total)[0]
    high = np.nonzero(total > dm.Vmax)[0]
    pins = np.hstack([np.hstack([dm.pinned, low]), high])
    vals = np.hstack([np.hstack([dm.Vpinned, dm.Vmin - bias[low]]), dm.Vmax - bias[high]])
    dm.Vpinned = vals
    dm.pinned = pins
    if pins.size > 0:
        v = V.flatten()
        v[pins.astype(int)] = vals
        V = v.reshape(V.shape)
    if dm.tied.size > 0:
        v = V.flatten()
        v[dm.tied[:, 1]] = v[dm.tied[:, 0]]
        V = v.reshape(V.shape)
    dm.V = V
    return dm


def _loop_bad(mp, cvar):
    """The second mirror is constrained only when the first one is in use."""
    for it in range(mp.Nitr):
        cvar.Itr = it
        mp.dm1.V = mp.dm1.V + falco.ctrl.init(mp, cvar)
        mp.dm2.V = mp.dm2.V + falco.ctrl.init(mp, cvar)
        if any(mp.dm_ind == 1):
            mp.dm1 = falco.dm.enforce_constraints(mp.dm1)
            mp.dm2 = falco.dm.enforce_constraints(mp.dm2)


def _loop_good(mp, cvar):
    for it in range(mp.Nitr):
        cvar.Itr = it
        mp.dm1.V = mp.dm1.V + falco.ctrl.init(mp, cvar)
        mp.dm2.V = mp.dm2.V + falco.ctrl.init(mp, cvar)
        use1 = np.any(mp.dm_ind == 1)
        if not np.any(mp.dm_ind == 2):
            continue
        falco.dm.enforce_constraints(mp.dm2)
        if use1:
            falco.dm.enforce_constraints(mp.dm1)


def _surf_bad(dm, dx, Nout):
    h = dm.V * dm.VtoH
    falco.dm.enforce_constraints(dm)
    return h * dx


def _surf_good(dm, dx, Nout):
    dm = falco.dm.enforce_constraints(dm)
    h = dm.VtoH * dm.V
    return h * dx
