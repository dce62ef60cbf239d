"""Functions that serve the model named in an argument: everything that differs between the models comes from that model."""
import numpy as np
import falco


def falco__dm__gen_surf_from_poke_cube(dm, model_type):
    if model_type not in ('compact', 'full'):
        raise ValueError('model_type')
    src = dm.compact if model_type == 'compact' else dm
    surf = np.zeros((src.NdmPad, src.NdmPad))
    for k in range(dm.NactTotal):
        if np.sum(np.abs(src.inf_datacube[:, :, k])) > 1e-12:
            cols = np.arange(src.xy_box_lowerLeft[0, k], src.xy_box_lowerLeft[0, k] + src.Nbox, dtype=int)
            rows = np.arange(src.xy_box_lowerLeft[1, k], src.xy_box_lowerLeft[1, k] + src.Nbox, dtype=int)
            surf[np.ix_(rows, cols)] += dm.V[np.unravel_index(k, dm.V.shape)] * dm.VtoH[np.unravel_index(k, dm.VtoH.shape)] * src.inf_datacube[:, :, k]
    return surf


def falco__hlc__gen_fpm_surf_from_cube(dm, modelType):
    if modelType.lower() == 'compact':
        src = dm.compact
    elif modelType.lower() == 'full':
        src = dm
    else:
        raise ValueError('modelType')
    surf = np.zeros((src.NdmPad, src.NdmPad))
    for k in range(dm.NactTotal):
        if np.sum(np.abs(src.inf_datacube[:, :, k])) >= 1e-8 and np.sum(np.abs(dm.VtoH.flatten()[k])) >= 1e-12:
            cols = np.arange(src.xy_box_lowerLeft[0, k], src.xy_box_lowerLeft[0, k] + src.Nbox, dtype=int)
            rows = np.arange(src.xy_box_lowerLeft[1, k], src.xy_box_lowerLeft[1, k] + src.Nbox, dtype=int)
            surf[np.ix_(rows, cols)] += dm.V.flatten()[k] * dm.VtoH.flatten()[k] * src.inf_datacube[:, :, k]
    surf[surf < 0] = 0.
    return surf


def falco__hlc__gen_fpm_from_LUT(mp, si, wi, modelType):
    if modelType.lower() == 'compact':
        table, k = mp.complexTransCompact, si
    elif modelType.lower() == 'full':
        table, k = mp.complexTransFull, (si if mp.Nwpsbp == 1 else si * (mp.Nwpsbp - 1) + wi)
    else:
        raise ValueError('modelType')
    metal = falco.hlc.gen_fpm_surf_from_cube(mp.dm8, modelType)
    diel = mp.t_diel_bias_nm * 1e-9 + falco.hlc.gen_fpm_surf_from_cube(mp.dm9, modelType)
    if not metal.size == diel.size:
        raise ValueError('size')
    im = falco.hlc.discretize_fpm_surf(metal, mp.t_metal_nm_vec, mp.dt_metal_nm)
    idi = falco.hlc.discretize_fpm_surf(diel, mp.t_diel_nm_vec, mp.dt_diel_nm)
    out = np.zeros((metal.shape[0], metal.shape[1]), dtype=complex)
    for c in range(metal.shape[1]):
        for r in range(metal.shape[0]):
            out[r, c] = table[idi[r, c], im[r, c], k]
    return out
