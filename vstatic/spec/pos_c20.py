"""Positive examples of C20: wrong (bad*) and merely rewritten (good*) variants of compared functions."""
import numpy as np


def bad__falco__dm__discretize_surf(dm, HminStepMethod):
    n = dm.V * dm.VtoH / dm.HminStep
    name = HminStepMethod.lower()
    if 'round' in name:
        n = np.round(n)
    elif 'floor' in name:
        n = np.floor(n)
    elif 'ceil' in name:
        n = np.ceil(n)
    elif 'fix' in name:
        n = np.fix(n)
    else:
        raise ValueError(name)
    dm.Vquantized = n * dm.HminStep
    return dm


def good__falco__dm__discretize_surf(dm, HminStepMethod):
    name = HminStepMethod.lower()
    ops = dm.VtoH * dm.V
    step = dm.HminStep
    if 'round' in name:
        q = np.round(ops / step)
    elif 'floor' in name:
        q = np.floor(ops / step)
    elif 'ceil' in name:
        q = np.ceil(ops / step)
    elif 'fix' in name:
        q = np.fix(ops / step)
    else:
        raise ValueError(name)
    dm.Vquantized = q * step / dm.VtoH
    return dm


def bad2__falco__dm__gen_surf_from_poke_cube(dm, model_type):
    """Commands taken in column-major order."""
    if model_type == 'compact':
        p = dm.compact
    elif model_type == 'full':
        p = dm
    else:
        raise ValueError('model_type')
    surf = np.zeros((p.NdmPad, p.NdmPad))
    for k in range(dm.NactTotal):
        if np.sum(np.abs(p.inf_datacube[:, :, k])) > 1e-12:
            cols = np.arange(p.xy_box_lowerLeft[0, k], p.xy_box_lowerLeft[0, k] + p.Nbox, dtype=int)
            rows = np.arange(p.xy_box_lowerLeft[1, k], p.xy_box_lowerLeft[1, k] + p.Nbox, dtype=int)
            height = dm.V.T[np.unravel_index(k, dm.V.shape)] * dm.VtoH[np.unravel_index(k, dm.VtoH.shape)]
            surf[np.ix_(rows, cols)] += height * p.inf_datacube[:, :, k]
    return surf
