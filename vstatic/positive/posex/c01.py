import copy
import numpy as np


def measure(mp):
    return mp.dm1.V.sum()


def bad_not_restored(mp, d):
    mp.dm1.V = mp.dm1.V + d
    return measure(mp)


def bad_alias_saved(mp, d):
    v0 = mp.dm1.V
    mp.dm1.V += d
    r = measure(mp)
    mp.dm1.V = v0
    return r


def bad_undo_by_arithmetic(mp, d):
    mp.dm1.V = mp.dm1.V + d
    r = measure(mp)
    mp.dm1.V = mp.dm1.V - d
    return r


def bad_early_return(mp, d, quick):
    v0 = mp.dm1.V.copy()
    mp.dm1.V = v0 + d
    if quick:
        return 0
    r = measure(mp)
    mp.dm1.V = v0
    return r


def bad_wrong_mirror(mp, d):
    v1 = mp.dm1.V.copy()
    v2 = mp.dm2.V.copy()
    mp.dm1.V = v1 + d
    mp.dm2.V = v2 + d
    r = measure(mp)
    mp.dm1.V = v1
    mp.dm2.V = v1
    return r


def bad_guard_changes(mp, d):
    ind0 = mp.dm_ind
    v2 = mp.dm2.V.copy()
    mp.dm2.V = v2 + d
    mp.dm_ind = [1]
    r = measure(mp)
    if 2 in mp.dm_ind:
        mp.dm2.V = v2
    mp.dm_ind = ind0
    return r


def bad_saved_late(mp, probes):
    out = []
    for p in probes:
        v0 = mp.dm1.V.copy()
        mp.dm1.V = v0 + p
        out.append(measure(mp))
    mp.dm1.V = v0
    return out


def bad_list(mp):
    keep = mp.dm1.act_ele
    mp.dm1.act_ele = np.arange(3)
    r = measure(mp)
    mp.dm1.act_ele = np.arange(mp.dm1.NactTotal)
    return r, keep


def _adopt(mp, d):
    mp.dm1.V = mp.dm1.V + d


def bad_through_callee(mp, d):
    _adopt(mp, d)
    return measure(mp)


def good_saved(mp, probes):
    v0 = mp.dm1.V.copy()
    out = []
    for p in probes:
        mp.dm1.V = v0 + p
        out.append(measure(mp))
    mp.dm1.V = v0
    return out


def good_rebind(mp, d):
    v0 = mp.dm1.V
    mp.dm1.V = v0 + d
    r = measure(mp)
    mp.dm1.V = v0
    return r


def good_guarded(mp, d):
    if 1 in mp.dm_ind:
        v0 = mp.dm1.V
        mp.dm1.V = v0 + d
    r = measure(mp)
    if 1 in mp.dm_ind:
        mp.dm1.V = v0
    return r


def good_finally(mp, d):
    v0 = mp.dm1.V
    mp.dm1.V = v0 + d
    try:
        return measure(mp)
    finally:
        mp.dm1.V = v0


def good_inplace(mp, d):
    v0 = np.array(mp.dm1.V)
    mp.dm1.V += d
    r = measure(mp)
    mp.dm1.V[:] = v0
    return r


def good_copy(mp, d):
    m = copy.copy(mp)
    m.dm1 = copy.copy(mp.dm1)
    m.dm1.V = mp.dm1.V + d
    return measure(m)


def good_callee_then_restore(mp, d):
    v0 = copy.deepcopy(mp.dm1.V)
    _adopt(mp, d)
    r = measure(mp)
    mp.dm1.V = v0
    return r


def good_each_iteration(mp, probes):
    out = []
    for p in probes:
        v0 = mp.dm1.V.copy()
        mp.dm1.V = v0 + p
        out.append(measure(mp))
        mp.dm1.V = v0
    return out
