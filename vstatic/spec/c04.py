"""Functions that choose between the mirrors."""
import os
import numpy as np
import falco


def falco__setup__falco_gen_dm_stops(mp):
    for dm, flag in ((mp.dm1, mp.flagDM1stop), (mp.dm2, mp.flagDM2stop)):
        if not hasattr(dm, 'full'):
            dm.full = falco.config.Object()
        if not hasattr(dm, 'compact'):
            dm.compact = falco.config.Object()
        if flag:
            dm.full.mask = falco.mask.falco_gen_DM_stop(mp.P2.full.dx, dm.Dstop, mp.centering)
            dm.compact.mask = falco.mask.falco_gen_DM_stop(mp.P2.compact.dx, dm.Dstop, mp.centering)


def _array_width(mp, width1, width2, beam, wavelength, dx):
    use1 = np.any(mp.dm_ind == 1)
    use2 = np.any(mp.dm_ind == 2)
    if use1 and use2:
        width = 2**np.ceil(np.log2(np.max([width1, width2])) + 1)
    elif use1:
        width = 2**np.ceil(np.log2(width1) + 1)
    elif use2:
        width = 2**np.ceil(np.log2(width2) + 1)
    else:
        width = 2*beam
    while width < wavelength*np.abs(mp.d_dm1_dm2)/dx**2 or width < wavelength*np.abs(mp.d_P2_dm1)/dx**2:
        width = 2*width
    return width


def falco__setup__falco_set_dm_surface_padding(mp):
    mp.compact.NdmPad = _array_width(mp, mp.dm1.compact.NdmPad, mp.dm2.compact.NdmPad, mp.P1.compact.Nbeam, np.min(mp.sbp_centers), mp.P2.compact.dx)
    mp.full.NdmPad = _array_width(mp, mp.dm1.NdmPad, mp.dm2.NdmPad, mp.P1.full.Nbeam, np.min(mp.full.lambdas), mp.P2.full.dx)


def _slices(mp, number, dm):
    g = np.zeros((mp.Fend.corr.Npix, dm.Nele, mp.jac.Nmode), dtype=complex)
    for mode in range(mp.jac.Nmode):
        for k, act in enumerate(dm.act_ele):
            name = 'jac_mode%d_dm1_act%d.npy' if number == 1 else 'jac_mode%d_dm2_act%d.npy'
            g[:, k, mode] = np.load(os.path.join(mp.path.jac, name % (mode, act)))
    return g


def falco__model__models__reassemble_jac_from_slices(mp):
    s = falco.config.Object()
    s.G1 = _slices(mp, 1, mp.dm1)
    s.G2 = _slices(mp, 2, mp.dm2)
    falco.model.models.apply_ties_to_jac(mp, s)
    return s
