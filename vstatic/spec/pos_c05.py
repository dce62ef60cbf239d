import numpy as np


def bad1__falco__dm__gen_surf_from_poke_cube(dm, model_type):
    src = dm.compact if model_type == 'compact' else dm
    surf = np.zeros((src.NdmPad, src.NdmPad))
    for k in range(dm.NactTotal):
        if np.sum(np.abs(src.inf_datacube[:, :, k])) > 1e-12:
            cols = np.arange(src.xy_box_lowerLeft[0, k], src.xy_box_lowerLeft[0, k] + dm.Nbox, dtype=int)
            rows = np.arange(src.xy_box_lowerLeft[1, k], src.xy_box_lowerLeft[1, k] + dm.Nbox, dtype=int)
            surf[np.ix_(rows, cols)] += dm.V[np.unravel_index(k, dm.V.shape)] * dm.VtoH[np.unravel_index(k, dm.VtoH.shape)] * src.inf_datacube[:, :, k]
    return surf
