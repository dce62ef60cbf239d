"""Positive examples for C03 (bad*: the parallel result is combined differently; good*: the same in other words)."""
import numpy as np
import falco


def bad__falco__model__models__jacobian(mp):
    jac = falco.config.Object()
    N = int(mp.compact.NdmPad)
    mp.dm1.compact.surfM = falco.dm.gen_surf_from_act(mp.dm1, mp.dm1.compact.dx, N) if any(mp.dm_ind == 1) else np.zeros((N, N))
    mp.dm2.compact.surfM = falco.dm.gen_surf_from_act(mp.dm2, mp.dm2.compact.dx, N) if any(mp.dm_ind == 2) else np.zeros((N, N))
    if mp.layout.lower() == 'fourier' and mp.coro.upper() == 'HLC' and not hasattr(mp.compact, 'fpmCube'):
        mp.compact.fpmCube, mp.dm8.surf, mp.dm9.surf = falco.hlc.gen_fpm_cube_from_LUT(mp, 'compact')
    falco.model.jacobians.precomp(mp)
    jac.G1 = np.zeros((mp.Fend.corr.Npix, mp.dm1.Nele, mp.jac.Nmode), dtype=complex)
    jac.G2 = np.zeros((mp.Fend.corr.Npix, mp.dm2.Nele, mp.jac.Nmode), dtype=complex)
    cases = []
    if any(mp.dm_ind == 1):
        cases += [(imode, 1, index, iact) for index, iact in enumerate(mp.dm1.act_ele) for imode in range(mp.jac.Nmode)]
    if any(mp.dm_ind == 2):
        cases += [(imode, 2, index, iact) for index, iact in enumerate(mp.dm2.act_ele) for imode in range(mp.jac.Nmode)]
    columns = [falco.model.models._jac_middle_layer(mp, imode, idm, index) for imode, idm, index, iact in cases]
    for k in range(len(cases)):
        if cases[k][1] == 1:
            jac.G1[:, cases[k][2], cases[k][0]] = columns[k]
        if cases[k][1] == 2:
            jac.G2[:, cases[k][2], cases[k][0]] = columns[k]
    falco.model.models.apply_ties_to_jac(mp, jac)
    return jac


def good__falco__model__models__jacobian(mp):
    jac = falco.config.Object()
    N = int(mp.compact.NdmPad)
    zero = np.zeros((N, N))
    mp.dm1.compact.surfM = zero
    if any(mp.dm_ind == 1):
        mp.dm1.compact.surfM = falco.dm.gen_surf_from_act(mp.dm1, mp.dm1.compact.dx, N)
    mp.dm2.compact.surfM = np.zeros((N, N))
    if any(mp.dm_ind == 2):
        mp.dm2.compact.surfM = falco.dm.gen_surf_from_act(mp.dm2, mp.dm2.compact.dx, N)
    if mp.layout.lower() == 'fourier' and mp.coro.upper() == 'HLC' and not hasattr(mp.compact, 'fpmCube'):
        mp.compact.fpmCube, mp.dm8.surf, mp.dm9.surf = falco.hlc.gen_fpm_cube_from_LUT(mp, 'compact')
    falco.model.jacobians.precomp(mp)
    jac.G1 = np.zeros((mp.Fend.corr.Npix, mp.dm1.Nele, mp.jac.Nmode), dtype=complex)
    jac.G2 = np.zeros((mp.Fend.corr.Npix, mp.dm2.Nele, mp.jac.Nmode), dtype=complex)
    cases = []
    if any(mp.dm_ind == 1):
        cases = cases + [(imode, 1, index, iact) for index, iact in enumerate(mp.dm1.act_ele) for imode in range(mp.jac.Nmode)]
    if any(mp.dm_ind == 2):
        cases = cases + [(imode, 2, index, iact) for index, iact in enumerate(mp.dm2.act_ele) for imode in range(mp.jac.Nmode)]
    columns = [falco.model.models._jac_middle_layer(mp, c[0], c[1], c[3]) for c in cases]
    for k, (imode, idm, index, iact) in enumerate(cases):
        if idm == 2:
            jac.G2[:, index, imode] = columns[k]
        elif idm == 1:
            jac.G1[:, index, imode] = columns[k]
    falco.model.models.apply_ties_to_jac(mp, jac)
    return jac
