"""Reference definitions of the controllers (C23)."""
import copy

import numpy as np
import scipy.optimize

import falco


def falco__ctrl__wrapper(mp, cvar, jacStruct):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    kind = mp.controller.lower()
    if kind == 'ad-efc':
        d = falco.ctrl._planned_ad_efc(mp, cvar)
    else:
        falco.ctrl.apply_spatial_weighting_to_Jacobian(mp, jacStruct)
        GG = np.zeros((cvar.NeleAll, cvar.NeleAll))
        GE = np.zeros((cvar.NeleAll, 1))
        E = cvar.Eest.copy()
        for m in range(mp.jac.Nmode):
            G = np.zeros((mp.Fend.corr.Npix, 1), dtype=complex)
            if any(mp.dm_ind == 1):
                G = np.hstack((G, np.squeeze(jacStruct.G1[:, :, m])))
            if any(mp.dm_ind == 2):
                G = np.hstack((G, np.squeeze(jacStruct.G2[:, :, m])))
            if any(mp.dm_ind == 8):
                G = np.hstack((G, np.squeeze(jacStruct.G8[:, :, m])))
            if any(mp.dm_ind == 9):
                G = np.hstack((G, np.squeeze(jacStruct.G9[:, :, m])))
            G = G[:, 1:]
            GG += mp.jac.weights[m] * np.real(np.conj(G).T @ G)
            if mp.jac.minimizeNI:
                modvar = falco.config.ModelVariables()
                modvar.whichSource = 'star'
                modvar.sbpIndex = mp.jac.sbp_inds[m]
                modvar.zernIndex = mp.jac.zern_inds[m]
                modvar.starIndex = mp.jac.star_inds[m]
                psf = falco.model.compact(mp, modvar, useFPM=False)
                E[:, m] = cvar.Eest[:, m] / psf[np.unravel_index(np.argmax(np.abs(psf), axis=None), psf.shape)]
            Ew = mp.WspatialVec[:, mp.jac.star_inds[m]] * E[:, m]
            GE += mp.jac.weights[m] * np.real(np.conj(G).T @ Ew.reshape(mp.Fend.corr.Npix, 1))
        cvar.GstarG_wsum = GG
        cvar.RealGstarEab_wsum = GE
        cvar.EyeNorm = np.max(np.diag(GG))
        cvar.EyeGstarGdiag = np.max(np.diag(GG)) * np.ones(cvar.NeleAll)
        if kind == 'plannedefc':
            d = falco.ctrl._planned_efc(mp, cvar)
        elif kind == 'gridsearchefc':
            d = falco.ctrl._grid_search_efc(mp, cvar)
        else:
            raise ValueError('controller')
    if any(mp.dm_ind == 1):
        mp.dm1.V += d.dDM1V
        mp.dm1.dV = d.dDM1V
    if any(mp.dm_ind == 2):
        mp.dm2.V += d.dDM2V
        mp.dm2.dV = d.dDM2V
    if any(mp.dm_ind == 8):
        mp.dm8.V += d.dDM8V
        mp.dm8.dV = d.dDM8V
    if any(mp.dm_ind == 9):
        mp.dm9.V += d.dDM9V
        mp.dm9.dV = d.dDM9V


def falco__ctrl__cull_weak_actuators(mp, cvar, jacStruct):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    if cvar.Itr == 0:
        cull = True
    elif hasattr(mp, 'dm_ind_sched'):
        cull = not np.array_equal(np.sort(mp.dm_ind_sched[cvar.Itr - 1]), np.sort(mp.dm_ind_sched[cvar.Itr]))
    else:
        cull = False
    cvar.flagCullAct = cull
    if cull:
        if np.any(mp.dm_ind == 1):
            mp.dm1.act_ele = list(range(mp.dm1.NactTotal))
            mp.dm1.Nele = len(mp.dm1.act_ele)
        else:
            mp.dm1.Nele = 0
        if np.any(mp.dm_ind == 2):
            mp.dm2.act_ele = list(range(mp.dm2.NactTotal))
            mp.dm2.Nele = len(mp.dm2.act_ele)
        else:
            mp.dm2.Nele = 0
        if np.any(mp.dm_ind == 8):
            mp.dm8.act_ele = list(range(mp.dm8.NactTotal))
            mp.dm8.Nele = len(mp.dm8.act_ele)
        else:
            mp.dm8.Nele = 0
        if np.any(mp.dm_ind == 9):
            mp.dm9.act_ele = list(range(mp.dm9.NactTotal))
            mp.dm9.Nele = len(mp.dm9.act_ele)
        else:
            mp.dm9.Nele = 0
    if cull and cvar.flagRelin:
        if any(mp.dm_ind == 1):
            s = np.sum(np.mean(np.abs(jacStruct.G1)**2, axis=2), axis=0)
            ele = np.nonzero(s / np.max(s) >= 10**(mp.logGmin))[0]
            for k in range(mp.dm1.tied.shape[0]):
                if not (any(ele == mp.dm1.tied[k, 0])):
                    ele = np.hstack([ele, mp.dm1.tied[k, 0]])
                if not (any(ele == mp.dm1.tied[k, 1])):
                    ele = np.hstack([ele, mp.dm1.tied[k, 1]])
            mp.dm1.act_ele = np.sort(ele)
            mp.dm1.Nele = mp.dm1.act_ele.size
            jacStruct.G1 = jacStruct.G1[:, mp.dm1.act_ele, :]
        if any(mp.dm_ind == 2):
            s = np.sum(np.mean(np.abs(jacStruct.G2)**2, axis=2), axis=0)
            ele = np.nonzero(s / np.max(s) >= 10**(mp.logGmin))[0]
            for k in range(mp.dm2.tied.shape[0]):
                if not (any(ele == mp.dm2.tied[k, 0])):
                    ele = np.hstack([ele, mp.dm2.tied[k, 0]])
                if not (any(ele == mp.dm2.tied[k, 1])):
                    ele = np.hstack([ele, mp.dm2.tied[k, 1]])
            mp.dm2.act_ele = np.sort(ele)
            mp.dm2.Nele = mp.dm2.act_ele.size
            jacStruct.G2 = jacStruct.G2[:, mp.dm2.act_ele, :]
        if any(mp.dm_ind == 8):
            s = np.sum(np.mean(np.abs(jacStruct.G8)**2, axis=2), axis=0)
            mp.dm8.act_ele = np.nonzero(s / np.max(s) >= 10**(mp.logGmin))[0]
            mp.dm8.Nele = mp.dm8.act_ele.size
            jacStruct.G8 = jacStruct.G8[:, mp.dm8.act_ele, :]
        if any(mp.dm_ind == 9):
            s = np.sum(np.mean(np.abs(jacStruct.G9)**2, axis=2), axis=0)
            mp.dm9.act_ele = np.nonzero(s / np.max(s) >= 10**(mp.logGmin))[0]
            mp.dm9.Nele = mp.dm9.act_ele.size
            jacStruct.G9 = jacStruct.G9[:, mp.dm9.act_ele, :]


def falco__ctrl__apply_spatial_weighting_to_Jacobian(mp, jacStruct):
    if np.any(mp.dm_ind == 1):
        jacStruct.G1 = jacStruct.G1.copy()
    if np.any(mp.dm_ind == 2):
        jacStruct.G2 = jacStruct.G2.copy()
    for s in range(mp.compact.star.count):
        own = mp.jac.star_inds == s
        w = mp.WspatialVec[:, s].reshape([-1])
        if np.any(mp.dm_ind == 1):
            jacStruct.G1[:, :, own] = jacStruct.G1[:, :, own] * np.moveaxis(np.tile(w, [mp.dm1.Nele, mp.jac.NmodePerStar, 1]), 2, 0)
        if np.any(mp.dm_ind == 2):
            jacStruct.G2[:, :, own] = jacStruct.G2[:, :, own] * np.moveaxis(np.tile(w, [mp.dm2.Nele, mp.jac.NmodePerStar, 1]), 2, 0)


def falco__ctrl__init(mp, cvar):
    none = np.array([])
    u1, u2, u8, u9, n1, n2, n8, n9 = none, none, none, none, none, none, none, none
    if any(mp.dm_ind == 1):
        cvar.DM1Vnom = mp.dm1.V
        u1 = mp.dm1.V.reshape(mp.dm1.NactTotal)[mp.dm1.act_ele]
        n1 = 1 * np.ones(mp.dm1.Nele, dtype=int)
    if any(mp.dm_ind == 2):
        cvar.DM2Vnom = mp.dm2.V
        u2 = mp.dm2.V.reshape(mp.dm2.NactTotal)[mp.dm2.act_ele]
        n2 = 2 * np.ones(mp.dm2.Nele, dtype=int)
    if any(mp.dm_ind == 8):
        cvar.DM8Vnom = mp.dm8.V
        u8 = mp.dm8.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele]
        n8 = 8 * np.ones(mp.dm8.Nele, dtype=int)
    if any(mp.dm_ind == 9):
        cvar.DM9Vnom = mp.dm9.V
        u9 = mp.dm9.V.reshape(mp.dm9.NactTotal)[mp.dm9.act_ele]
        n9 = 9 * np.ones(mp.dm9.Nele, dtype=int)
    cvar.uVec = np.concatenate((u1, u2, u8, u9))
    cvar.NeleAll = np.concatenate((u1, u2, u8, u9)).size
    cvar.uLegend = np.concatenate((n1, n2, n8, n9))
    mp.ctrl.uLegend = np.concatenate((n1, n2, n8, n9))


def falco__ctrl__wrapup(mp, cvar, duVec):
    d = falco.config.Object()
    if any(mp.dm_ind == 1):
        v1 = np.zeros(mp.dm1.NactTotal)
        v1[mp.dm1.act_ele] = mp.dm1.weight * duVec[cvar.uLegend == 1]
        d.dDM1V = v1.reshape((mp.dm1.Nact, mp.dm1.Nact))
        mp.dm1.V = cvar.DM1Vnom + d.dDM1V
    if any(mp.dm_ind == 2):
        v2 = np.zeros(mp.dm2.NactTotal)
        v2[mp.dm2.act_ele] = mp.dm2.weight * duVec[cvar.uLegend == 2]
        d.dDM2V = v2.reshape((mp.dm2.Nact, mp.dm2.Nact))
        mp.dm2.V = cvar.DM2Vnom + d.dDM2V
    if any(mp.dm_ind == 8):
        v8 = np.zeros(mp.dm8.NactTotal)
        v8[mp.dm8.act_ele] = mp.dm8.weight * duVec[cvar.uLegend == 8]
        d.dDM8V = v8
        mp.dm8.V = cvar.DM8Vnom + v8
    if any(mp.dm_ind == 9):
        v9 = np.zeros(mp.dm9.NactTotal)
        v9[mp.dm9.act_ele] = mp.dm9.weight * duVec[cvar.uLegend == 9]
        d.dDM9V = v9
        mp.dm9.V = cvar.DM9Vnom + v9
    return mp, d


def _outcome(mp, cvar, duVec):
    """Delta commands of a solution and the intensity they lead to; the commands in mp are put back."""
    if any(mp.dm_ind == 1):
        V1 = mp.dm1.V.copy()
    if any(mp.dm_ind == 2):
        V2 = mp.dm2.V.copy()
    if any(mp.dm_ind == 8):
        V8 = mp.dm8.V.copy()
    if any(mp.dm_ind == 9):
        V9 = mp.dm9.V.copy()
    mp, d = falco.ctrl.wrapup(mp, cvar, duVec)
    if mp.ctrl.flagUseModel:
        d.Itotal = falco.imaging.get_expected_summed_image(mp, cvar, d)
    else:
        d.Itotal = falco.imaging.get_summed_image(mp)
    if any(mp.dm_ind == 1):
        mp.dm1.V = V1
    if any(mp.dm_ind == 2):
        mp.dm2.V = V2
    if any(mp.dm_ind == 8):
        mp.dm8.V = V8
    if any(mp.dm_ind == 9):
        mp.dm9.V = V9
    return np.mean(d.Itotal[mp.Fend.corr.maskBool]), d


def falco__ctrl___efc(ni, vals_list, mp, cvar):
    falco.ctrl.init(mp, cvar)
    A = cvar.GstarG_wsum + 10.0**vals_list[ni][0] * np.diag(cvar.EyeGstarGdiag)
    u = -vals_list[ni][1] * np.linalg.solve(A, cvar.RealGstarEab_wsum)
    return _outcome(mp, cvar, u.reshape((-1,)))


def falco__ctrl___ad_efc(ni, vals_list, mp, cvar):
    falco.ctrl.init(mp, cvar)
    u0 = np.zeros(cvar.NeleAll)
    lim = np.zeros((cvar.NeleAll, 2))
    if any(mp.dm_ind == 1):
        u0[cvar.uLegend == 1] = np.zeros(mp.dm1.Nele)
        now = mp.dm1.V.flatten() + mp.dm1.biasMap.flatten()
        lim[cvar.uLegend == 1, 0] = (mp.dm1.Vmin - now)[mp.dm1.act_ele]
        lim[cvar.uLegend == 1, 1] = (mp.dm1.Vmax - now)[mp.dm1.act_ele]
    if any(mp.dm_ind == 2):
        u0[cvar.uLegend == 2] = np.zeros(mp.dm2.Nele)
        now = mp.dm2.V.flatten() + mp.dm2.biasMap.flatten()
        lim[cvar.uLegend == 2, 0] = (mp.dm2.Vmin - now)[mp.dm2.act_ele]
        lim[cvar.uLegend == 2, 1] = (mp.dm2.Vmax - now)[mp.dm2.act_ele]
    E, E1, E2, S2 = [], [], [], []
    for m in range(mp.jac.Nmode):
        modvar = falco.config.ModelVariables()
        modvar.whichSource = 'star'
        modvar.sbpIndex = mp.jac.sbp_inds[m]
        modvar.zernIndex = mp.jac.zern_inds[m]
        modvar.starIndex = mp.jac.star_inds[m]
        e, e1, e2, s1, s2 = falco.model.compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True, forRevGradModel=True)
        E.append(e)
        E1.append(e1)
        E2.append(e2)
        S2.append(s2)
    sol = scipy.optimize.minimize(
        falco.model.compact_reverse_gradient, u0, args=(vals_list[ni][0], mp, cvar.Eest, E, E1, E2, S2),
        method='L-BFGS-B', jac=True, bounds=lim, tol=None, callback=None,
        options={'disp': None, 'ftol': 1e-99, 'gtol': 1e-99, 'maxls': 20, 'maxiter': mp.ctrl.ad.maxiter, 'maxfun': mp.ctrl.ad.maxfun,
                 'maxcor': mp.ctrl.ad.maxcor, 'iprint': mp.ctrl.ad.iprint})
    return _outcome(mp, cvar, vals_list[ni][1] * sol.x)


def falco__ctrl___grid_search_efc(mp, cvar):
    grid = [(r, f) for f in mp.ctrl.dmfacVec for r in mp.ctrl.log10regVec]
    N = len(mp.ctrl.log10regVec) * len(mp.ctrl.dmfacVec)
    cost = np.zeros(N)
    ims = np.zeros((N, mp.Fend.Neta, mp.Fend.Nxi))
    if any(mp.dm_ind == 1):
        d1 = np.zeros((mp.dm1.Nact, mp.dm1.Nact, N))
    if any(mp.dm_ind == 2):
        d2 = np.zeros((mp.dm2.Nact, mp.dm2.Nact, N))
    if any(mp.dm_ind == 8):
        d8 = np.zeros((mp.dm8.NactTotal, N))
    if any(mp.dm_ind == 9):
        d9 = np.zeros((mp.dm9.NactTotal, N))
    for k in range(N):
        cost[k], d = falco.ctrl._efc(k, grid, mp, cvar)
        ims[k, :, :] = d.Itotal
        if any(mp.dm_ind == 1):
            d1[:, :, k] = d.dDM1V
        if any(mp.dm_ind == 2):
            d2[:, :, k] = d.dDM2V
        if any(mp.dm_ind == 8):
            d8[:, k] = d.dDM8V
        if any(mp.dm_ind == 9):
            d9[:, k] = d.dDM9V
    best = np.argmin(cost)
    cvar.InormVec = cost
    cvar.cMin = np.min(cost)
    cvar.Im = np.squeeze(ims[best, :, :])
    cvar.log10regUsed = grid[best][0]
    out = falco.config.Object()
    if any(mp.dm_ind == 1):
        out.dDM1V = np.squeeze(d1[:, :, best])
    if any(mp.dm_ind == 2):
        out.dDM2V = np.squeeze(d2[:, :, best])
    if any(mp.dm_ind == 8):
        out.dDM8V = np.squeeze(d8[:, best])
    if any(mp.dm_ind == 9):
        out.dDM9V = np.squeeze(d9[:, best])
    return out


def falco__ctrl___planned_efc(mp, cvar):
    grid = [(r, f) for f in mp.ctrl.dmfacVec for r in mp.ctrl.log10regVec]
    N = len(mp.ctrl.log10regVec) * len(mp.ctrl.dmfacVec)
    cost = np.zeros(N)
    search = any(np.array(mp.gridSearchItrVec) == cvar.Itr)
    relative = np.imag(mp.ctrl.log10regSchedIn[cvar.Itr]) != 0
    offset = np.real(mp.ctrl.log10regSchedIn[cvar.Itr])
    if search:
        if any(mp.dm_ind == 1):
            d1 = np.zeros((mp.dm1.Nact, mp.dm1.Nact, N))
        if any(mp.dm_ind == 2):
            d2 = np.zeros((mp.dm2.Nact, mp.dm2.Nact, N))
        if any(mp.dm_ind == 8):
            d8 = np.zeros((mp.dm8.NactTotal, N))
        if any(mp.dm_ind == 9):
            d9 = np.zeros((mp.dm9.NactTotal, N))
        ims = np.zeros((N, mp.Fend.Neta, mp.Fend.Nxi))
        for k in range(N):
            cost[k], d = falco.ctrl._efc(k, grid, mp, cvar)
            ims[k, :, :] = d.Itotal
            if any(mp.dm_ind == 1):
                d1[:, :, k] = d.dDM1V
            if any(mp.dm_ind == 2):
                d2[:, :, k] = d.dDM2V
            if any(mp.dm_ind == 8):
                d8[:, k] = d.dDM8V
            if any(mp.dm_ind == 9):
                d9[:, k] = d.dDM9V
        best = np.argmin(cost)
        cvar.cMin = np.min(cost)
        cvar.Im = np.squeeze(ims[best, :, :])
        cvar.latestBestlog10reg = grid[best][0]
        cvar.latestBestDMfac = grid[best][1]
    if search and relative and offset == 0:
        out = falco.config.Object()
        if any(mp.dm_ind == 1):
            out.dDM1V = np.squeeze(d1[:, :, best])
        if any(mp.dm_ind == 2):
            out.dDM2V = np.squeeze(d2[:, :, best])
        if any(mp.dm_ind == 8):
            out.dDM8V = np.squeeze(d8[:, best])
        if any(mp.dm_ind == 9):
            out.dDM9V = np.squeeze(d9[:, best])
        used = cvar.latestBestlog10reg
    else:
        if relative:
            used = cvar.latestBestlog10reg + offset
        else:
            used = offset
        if not hasattr(cvar, 'latestBestDMfac'):
            cvar.latestBestDMfac = 1
        one = [(r, f) for f in np.array([cvar.latestBestDMfac]) for r in np.array([used])]
        cvar.cMin, out = falco.ctrl._efc(0, one, mp, cvar)
        cvar.Im = np.squeeze(out.Itotal)
    cvar.log10regUsed = used
    return out


def falco__ctrl___planned_ad_efc(mp, cvar):
    grid = [(r, f) for f in mp.ctrl.dmfacVec for r in mp.ctrl.log10regVec]
    N = len(mp.ctrl.log10regVec) * len(mp.ctrl.dmfacVec)
    cost = np.zeros(N)
    search = any(np.array(mp.gridSearchItrVec) == cvar.Itr)
    relative = np.imag(mp.ctrl.log10regSchedIn[cvar.Itr]) != 0
    offset = np.real(mp.ctrl.log10regSchedIn[cvar.Itr])
    if search:
        if any(mp.dm_ind == 1):
            d1 = np.zeros((mp.dm1.Nact, mp.dm1.Nact, N))
        if any(mp.dm_ind == 2):
            d2 = np.zeros((mp.dm2.Nact, mp.dm2.Nact, N))
        if any(mp.dm_ind == 8):
            d8 = np.zeros((mp.dm8.NactTotal, N))
        if any(mp.dm_ind == 9):
            d9 = np.zeros((mp.dm9.NactTotal, N))
        ims = np.zeros((N, mp.Fend.Neta, mp.Fend.Nxi))
        for k in range(N):
            cost[k], d = falco.ctrl._ad_efc(k, grid, mp, cvar)
            ims[k, :, :] = d.Itotal
            if any(mp.dm_ind == 1):
                d1[:, :, k] = d.dDM1V
            if any(mp.dm_ind == 2):
                d2[:, :, k] = d.dDM2V
            if any(mp.dm_ind == 8):
                d8[:, k] = d.dDM8V
            if any(mp.dm_ind == 9):
                d9[:, k] = d.dDM9V
        best = np.argmin(cost)
        cvar.cMin = np.min(cost)
        cvar.Im = np.squeeze(ims[best, :, :])
        cvar.latestBestlog10reg = grid[best][0]
        cvar.latestBestDMfac = grid[best][1]
    if search and relative and offset == 0:
        out = falco.config.Object()
        if any(mp.dm_ind == 1):
            out.dDM1V = np.squeeze(d1[:, :, best])
        if any(mp.dm_ind == 2):
            out.dDM2V = np.squeeze(d2[:, :, best])
        if any(mp.dm_ind == 8):
            out.dDM8V = np.squeeze(d8[:, best])
        if any(mp.dm_ind == 9):
            out.dDM9V = np.squeeze(d9[:, best])
        used = cvar.latestBestlog10reg
    else:
        if relative:
            used = cvar.latestBestlog10reg + offset
        else:
            used = offset
        if not hasattr(cvar, 'latestBestDMfac'):
            cvar.latestBestDMfac = 1
        one = [(r, f) for f in np.array([cvar.latestBestDMfac]) for r in np.array([used])]
        cvar.cMin, out = falco.ctrl._ad_efc(0, one, mp, cvar)
        cvar.Im = np.squeeze(out.Itotal)
    cvar.log10regUsed = used
    return out


def falco__ctrl__set_utu_scale_fac(mp):
    falco.imaging.calc_psf_norm_factor(mp)
    if np.any(mp.dm_ind == 1):
        a1 = copy.copy(mp.dm1.act_ele)
        N1 = copy.copy(mp.dm1.Nele)
        mp.dm1.act_ele = np.arange(mp.dm1.NactTotal, dtype=int)[mp.ctrl.ad.dm1_act_mask_for_jac_norm]
        mp.dm1.Nele = len(mp.dm1.act_ele)
    if np.any(mp.dm_ind == 2):
        a2 = copy.copy(mp.dm2.act_ele)
        N2 = copy.copy(mp.dm2.Nele)
        mp.dm2.act_ele = np.arange(mp.dm2.NactTotal, dtype=int)[mp.ctrl.ad.dm2_act_mask_for_jac_norm]
        mp.dm2.Nele = len(mp.dm2.act_ele)
    jac = falco.model.jacobian(mp)
    u1 = mp.dm1.V.reshape(mp.dm1.NactTotal)[mp.dm1.act_ele] if any(mp.dm_ind == 1) else np.array([])
    u2 = mp.dm2.V.reshape(mp.dm2.NactTotal)[mp.dm2.act_ele] if any(mp.dm_ind == 2) else np.array([])
    N = np.concatenate((u1, u2)).size
    GG = np.zeros((N, N))
    for m in range(mp.jac.Nmode):
        G = np.zeros((mp.Fend.corr.Npix, 1), dtype=complex)
        if any(mp.dm_ind == 1):
            G = np.hstack((G, np.squeeze(jac.G1[:, :, m])))
        if any(mp.dm_ind == 2):
            G = np.hstack((G, np.squeeze(jac.G2[:, :, m])))
        G = G[:, 1:]
        GG += mp.jac.weights[m] * np.real(np.conj(G).T @ G)
    if np.any(mp.dm_ind == 1):
        mp.dm1.act_ele = a1
        mp.dm1.Nele = N1
    if np.any(mp.dm_ind == 2):
        mp.dm2.act_ele = a2
        mp.dm2.Nele = N2
    mp.ctrl.ad.utu_scale_fac = np.max(np.diag(GG))


def falco__ctrl__efc_schedule_generator(scheduleMatrix):
    N = int(np.real(np.sum(scheduleMatrix[:, 0])))
    relin = np.array([])
    search = []
    reg = np.zeros((N,), dtype=complex)
    dms = np.zeros((N,), dtype=int)
    first = 0
    for row in range(scheduleMatrix.shape[0]):
        n = int(np.real(scheduleMatrix[row, 0]))
        if int(np.real(scheduleMatrix[row, 3])) == 1:
            relin = np.append(relin, first)
        if int(np.real(scheduleMatrix[row, 4])) == 1:
            search.append(first)
        if not n == 0:
            reg[first:first + n] = scheduleMatrix[row, 1]
            dms[first:first + n] = int(np.real(scheduleMatrix[row, 2]))
        first += n
    sched = []
    for k in range(N):
        ind = []
        digits = str(dms[k])
        for c in range(len(digits)):
            ind.append(int(digits[c]))
        sched.append(np.array(ind))
    return N, relin, np.asarray(search), reg, sched
