"""Reference definitions of the actuator constraints (C13)."""
import numpy as np

import falco

from falco import check


def falco__dm__apply_neighbor_rule(Vin, Vlim, Nact):
    check.twoD_array(Vin, 'Vin', TypeError)
    check.real_scalar(Vlim, 'Vlim', TypeError)
    check.positive_scalar_integer(Nact, 'Nact', TypeError)
    ur = [-1, 1]
    rt = [0, 1]
    dr = [1, 1]
    dn = [1, 0]
    dl = [1, -1]
    first_first = np.array([rt, dr, dn])
    first_mid = np.array([rt, dr, dn, dl])
    first_last = np.array([dn, dl])
    mid_first = np.array([ur, rt, dr, dn])
    mid_mid = np.array([ur, rt, dr, dn, dl])
    mid_last = np.array([dn, dl])
    last_any = np.array([ur, rt])
    last_last = np.array([[-1, -1]])
    V = Vin.copy()
    pairs = np.zeros((0, 2))
    for row in range(Nact):
        for col in range(Nact):
            if row == 0:
                if col == 0:
                    nb = first_first
                elif col < Nact - 1:
                    nb = first_mid
                else:
                    nb = first_last
            elif row < Nact - 1:
                if col == 0:
                    nb = mid_first
                elif col < Nact - 1:
                    nb = mid_mid
                else:
                    nb = mid_last
            else:
                if col < Nact - 1:
                    nb = last_any
                else:
                    nb = last_last
            rows = row + nb[:, 0]
            cols = col + nb[:, 1]
            if rows.size >= 1:
                for k in range(rows.size):
                    diff = V[row, col] - V[rows[k], cols[k]]
                    if np.abs(diff) > Vlim:
                        pairs = np.vstack([pairs, np.array([row * Nact + col, rows[k] * Nact + cols[k]]).reshape(1, 2)])
                        excess = (np.abs(diff) - Vlim) / 2
                        V[row, col] = V[row, col] - np.sign(diff) * excess
                        V[rows[k], cols[k]] = V[rows[k], cols[k]] + np.sign(diff) * excess
    return V, pairs


def falco__dm__enforce_constraints(dm):
    if not hasattr(dm, 'dead_map'):
        dm.dead_map = np.zeros((dm.Nact, dm.Nact), dtype=bool)
        for k in dm.dead:
            dm.dead_map.ravel()[k] = True
    dm.V = dm.V * ~dm.dead_map
    total = (dm.V + dm.biasMap).flatten()
    low = np.nonzero(total < dm.Vmin)[0]
    high = np.nonzero(total > dm.Vmax)[0]
    bias = dm.biasMap.flatten()
    at_low = dm.Vmin - bias[low]
    at_high = dm.Vmax - bias[high]
    dm.pinned = np.hstack([np.hstack([dm.pinned, low]), high])
    dm.Vpinned = np.hstack([np.hstack([dm.Vpinned, at_low]), at_high])
    if dm.pinned.size > 0:
        v = dm.V.flatten()
        v[dm.pinned.astype(int)] = dm.Vpinned
        dm.V = v.reshape(dm.V.shape)
    if dm.tied.size > 0:
        v = dm.V.flatten()
        v[dm.tied[:, 1]] = v[dm.tied[:, 0]]
        dm.V = v.reshape(dm.V.shape)
    return dm


def _constraint_defaults(mp, dm):
    if not hasattr(dm, 'dead'):
        dm.dead = []
    if not hasattr(dm, 'pinned'):
        dm.pinned = np.array([])
    if not hasattr(dm, 'Vpinned'):
        dm.Vpinned = np.array([])
    if not hasattr(dm, 'tied'):
        dm.tied = np.zeros((0, 2))
    if not hasattr(dm, 'Vmin'):
        dm.Vmin = 0.
    if not hasattr(dm, 'Vmax'):
        dm.Vmax = 1000. if mp.flagSim else 100.
    if not hasattr(dm, 'biasMap'):
        dm.biasMap = dm.Vmax / 2 * np.ones((dm.Nact, dm.Nact))


def falco__setup__set_optional_variables(mp):
    if not hasattr(mp, 'dm1'):
        mp.dm1 = falco.config.Object()
    _constraint_defaults(mp, mp.dm1)
    if not hasattr(mp, 'dm2'):
        mp.dm2 = falco.config.Object()
    _constraint_defaults(mp, mp.dm2)


def falco__setup__falco_configure_dm1_and_dm2(mp):
    _dead_map(mp.dm1)
    _dead_map(mp.dm2)


def _dead_map(dm):
    dm.dead_map = np.zeros((dm.Nact, dm.Nact), dtype=bool)
    for k in dm.dead:
        dm.dead_map.ravel()[k] = True
