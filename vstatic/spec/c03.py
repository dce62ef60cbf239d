"""Reference definitions for C03: the parallel branches that enumerate their cases in one list, written as the serial loops over that list."""
import multiprocessing
import numpy as np
import falco
from falco.util import pad_crop


def _surface(mp, dm, number, dx, N):
    return falco.dm.gen_surf_from_act(dm, dx, N) if any(mp.dm_ind == number) else np.zeros((N, N))


def _case(sbpIndex, wpsbpIndex, zernIndex, starIndex):
    modvar = falco.config.ModelVariables()
    modvar.sbpIndex = sbpIndex
    modvar.wpsbpIndex = wpsbpIndex
    modvar.zernIndex = zernIndex
    modvar.whichSource = 'star'
    modvar.starIndex = starIndex
    return modvar


def falco__imaging__calc_psf_norm_factor(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    mp.sumPupil = np.sum(np.abs(mp.P1.compact.mask * pad_crop(np.mean(mp.P1.compact.E, axis=2), mp.P1.compact.mask.shape))**2)
    if not hasattr(mp.Fend, 'compact'):
        mp.Fend.compact = falco.config.Object()
    if not hasattr(mp.Fend, 'eval'):
        mp.Fend.eval = falco.config.Object()
    if not hasattr(mp.Fend, 'full'):
        mp.Fend.full = falco.config.Object()
    mp.Fend.compact.I00 = np.ones(mp.Nsbp)
    mp.Fend.eval.I00 = np.ones(mp.Nsbp)
    mp.Fend.full.I00 = np.ones((mp.Nsbp, mp.Nwpsbp))
    modvar = falco.config.ModelVariables()
    modvar.zernIndex = 1
    modvar.whichSource = 'star'
    modvar.starIndex = 0
    for si in range(mp.Nsbp):
        modvar.sbpIndex = si
        mp.Fend.compact.I00[si] = np.max(np.abs(falco.model.compact(mp, modvar, isNorm=False))**2)
    for si in range(mp.Nsbp):
        modvar.sbpIndex = si
        mp.Fend.eval.I00[si] = np.max(np.abs(falco.model.compact(mp, modvar, isNorm=False, isEvalMode=True))**2)
    if mp.flagSim:
        cases = [(si, wi) for si in range(mp.Nsbp) for wi in range(mp.Nwpsbp)]
        N = mp.Nsbp * mp.Nwpsbp
        peaks = [np.max(np.abs(falco.model.full(mp, _case(cases[k][0], cases[k][1], 1, 0), isNorm=False))**2) for k in range(N)]
        for k in range(N):
            mp.Fend.full.I00[cases[k][0], cases[k][1]] = peaks[k]


def falco__est__perfect(mp, ev):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    if hasattr(mp.full, 'pol_conds'):
        if set(mp.full.pol_conds) in ({-2, -1, 1, 2}, {10}):
            mp.full.polaxis = 10
        elif set(mp.full.pol_conds) in ({-1, 1}, {5}):
            mp.full.polaxis = 5
        elif set(mp.full.pol_conds) in ({-2, 2}, {6}):
            mp.full.polaxis = 6
        elif set(mp.full.pol_conds) == {0}:
            mp.full.polaxis = 0
        else:
            raise ValueError('pol_conds')
    ev.imageArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, 1, mp.Nsbp))
    cases = [(m, wi) for m in range(mp.jac.Nmode) for wi in range(mp.Nwpsbp)]
    N = mp.jac.Nmode * mp.Nwpsbp
    fields = [falco.model.full(mp, _case(mp.jac.sbp_inds[cases[k][0]], cases[k][1], mp.jac.zern_inds[cases[k][0]], mp.jac.star_inds[cases[k][0]]))
              for k in range(N)]
    mats = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
    vecs = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
    for k in range(N):
        m, wi = cases[k][0], cases[k][1]
        mats[:, :, m, wi] = fields[k]
        vecs[:, m, wi] = fields[k][mp.Fend.corr.maskBool]
    Eest = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode), dtype=complex)
    for m in range(mp.jac.Nmode):
        vec = np.zeros(mp.Fend.corr.Npix, dtype=complex)
        mat = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
        for wi in range(mp.Nwpsbp):
            vec = vec + mp.full.lambda_weights[wi] * vecs[:, m, wi]
            mat = mat + mp.full.lambda_weights[wi] * mats[:, :, m, wi]
        Eest[:, m] = vec
        if mp.jac.zern_inds[m] == 1:
            ev.imageArray[:, :, 0, mp.jac.sbp_inds[m]] += np.abs(mat)**2
    ev.Eest = Eest
    ev.IincoEst = np.zeros(Eest.shape, dtype=float)
    return ev


def falco__model__models__jacobian(mp):
    jac = falco.config.Object()
    N = int(mp.compact.NdmPad)
    mp.dm1.compact.surfM = _surface(mp, mp.dm1, 1, mp.dm1.compact.dx, N)
    mp.dm2.compact.surfM = _surface(mp, mp.dm2, 2, mp.dm2.compact.dx, N)
    if mp.layout.lower() == 'fourier' and mp.coro.upper() == 'HLC' and not hasattr(mp.compact, 'fpmCube'):
        mp.compact.fpmCube, mp.dm8.surf, mp.dm9.surf = falco.hlc.gen_fpm_cube_from_LUT(mp, 'compact')
    falco.model.jacobians.precomp(mp)
    jac.G1 = np.zeros((mp.Fend.corr.Npix, mp.dm1.Nele, mp.jac.Nmode), dtype=complex)
    jac.G2 = np.zeros((mp.Fend.corr.Npix, mp.dm2.Nele, mp.jac.Nmode), dtype=complex)
    cases = []
    if any(mp.dm_ind == 1):
        cases += [(imode, 1, index, iact) for index, iact in enumerate(mp.dm1.act_ele) for imode in range(mp.jac.Nmode)]
    if any(mp.dm_ind == 2):
        cases += [(imode, 2, index, iact) for index, iact in enumerate(mp.dm2.act_ele) for imode in range(mp.jac.Nmode)]
    columns = [falco.model.models._jac_middle_layer(mp, imode, idm, iact) for imode, idm, index, iact in cases]
    for k in range(len(cases)):
        imode, idm, index = cases[k][0], cases[k][1], cases[k][2]
        if idm == 1:
            jac.G1[:, index, imode] = columns[k]
        if idm == 2:
            jac.G2[:, index, imode] = columns[k]
    falco.model.models.apply_ties_to_jac(mp, jac)
    return jac


def falco__ctrl___grid_search_efc(mp, cvar):
    grid = [(r, f) for f in mp.ctrl.dmfacVec for r in mp.ctrl.log10regVec]
    N = len(mp.ctrl.log10regVec) * len(mp.ctrl.dmfacVec)
    cost = np.zeros(N)
    ims = np.zeros((N, mp.Fend.Neta, mp.Fend.Nxi))
    if any(mp.dm_ind == 1):
        d1 = np.zeros((mp.dm1.Nact, mp.dm1.Nact, N))
    if any(mp.dm_ind == 2):
        d2 = np.zeros((mp.dm2.Nact, mp.dm2.Nact, N))
    if any(mp.dm_ind == 8):
        d8 = np.zeros((mp.dm8.NactTotal, N))
    if any(mp.dm_ind == 9):
        d9 = np.zeros((mp.dm9.NactTotal, N))
    if mp.ctrl.flagUseModel:
        with multiprocessing.Pool(processes=mp.Nthreads) as pool:
            results = pool.starmap(falco.ctrl._efc, [(k, grid, mp, cvar) for k in range(N)])
        for k in range(N):
            cost[k], d = results[k][0], results[k][1]
            ims[k, :, :] = d.Itotal
            if any(mp.dm_ind == 1):
                d1[:, :, k] = d.dDM1V
            if any(mp.dm_ind == 2):
                d2[:, :, k] = d.dDM2V
            if any(mp.dm_ind == 8):
                d8[:, k] = d.dDM8V
            if any(mp.dm_ind == 9):
                d9[:, k] = d.dDM9V
    else:
        for k in range(N):
            cost[k], d = falco.ctrl._efc(k, grid, mp, cvar)
            ims[k, :, :] = d.Itotal
            if any(mp.dm_ind == 1):
                d1[:, :, k] = d.dDM1V
            if any(mp.dm_ind == 2):
                d2[:, :, k] = d.dDM2V
            if any(mp.dm_ind == 8):
                d8[:, k] = d.dDM8V
            if any(mp.dm_ind == 9):
                d9[:, k] = d.dDM9V
    best = np.argmin(cost)
    cvar.InormVec = cost
    cvar.cMin = np.min(cost)
    cvar.Im = np.squeeze(ims[best, :, :])
    cvar.log10regUsed = grid[best][0]
    out = falco.config.Object()
    if any(mp.dm_ind == 1):
        out.dDM1V = np.squeeze(d1[:, :, best])
    if any(mp.dm_ind == 2):
        out.dDM2V = np.squeeze(d2[:, :, best])
    if any(mp.dm_ind == 8):
        out.dDM8V = np.squeeze(d8[:, best])
    if any(mp.dm_ind == 9):
        out.dDM9V = np.squeeze(d9[:, best])
    return out
