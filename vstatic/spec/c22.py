"""Reference definitions of the electric-field estimators (C22)."""
import numpy as np

import falco
from falco import check


def falco__est__wrapper(mp, ev, jacStruct):
    if mp.estimator == 'perfect':
        falco.est.perfect(mp, ev)
        ev.Im = falco.imaging.get_summed_image(mp)
    elif mp.estimator in ['pairwise', 'pairwise-square', 'pairwise-rect', 'pwp-bp-square', 'pwp-bp', 'pwp-kf']:
        if mp.est.flagUseJac:
            falco.est.pairwise_probing(mp, ev, jacStruct=jacStruct)
        else:
            falco.est.pairwise_probing(mp, ev)
    else:
        raise ValueError('estimator')


def _scheduled(vec, Nitr, Itr, default):
    if vec is None:
        return default
    check.oneD_array(vec, 'schedule', TypeError)
    if len(vec) < Nitr:
        raise ValueError('schedule')
    return vec[Itr]


def falco__est__pairwise_probing(mp, ev, jacStruct=np.array([])):
    Itr = ev.Itr
    which = mp.est.probe.whichDM
    if which not in (1, 2):
        raise ValueError('whichDM')
    sched = mp.est.probeSchedule
    if sched.xOffsetVec is not None:
        mp.est.probe.xOffset = _scheduled(sched.xOffsetVec, mp.Nitr, Itr, None)
    if sched.yOffsetVec is not None:
        mp.est.probe.yOffset = _scheduled(sched.yOffsetVec, mp.Nitr, Itr, None)
    if sched.rotationVec is not None:
        mp.est.probe.rotation = _scheduled(sched.rotationVec, mp.Nitr, Itr, None)
    if sched.InormProbeVec is not None:
        check.oneD_array(sched.InormProbeVec, 'schedule', TypeError)
        if len(sched.InormProbeVec) < mp.Nitr:
            raise ValueError('schedule')

    used = mp.dm_ind.copy()
    mp.dm_ind_init = mp.dm_ind.copy()
    mp.dm_ind = list(mp.dm_ind)
    if which == 1 and ~np.any(mp.dm_ind == 1):
        mp.dm_ind = np.concatenate((mp.dm_ind, [1]))
    elif which == 2 and ~np.any(mp.dm_ind == 2):
        mp.dm_ind = np.concatenate((mp.dm_ind, [2]))
    if which == 1:
        Nact = mp.dm1.Nact
    elif which == 2:
        Nact = mp.dm2.Nact
    V1 = mp.dm1.V.copy()
    V2 = mp.dm2.V.copy()
    Npairs = mp.est.probe.Npairs
    Npix = mp.Fend.corr.Npix
    dark = mp.Fend.corr.maskBool
    Nmode = mp.Nsbp * mp.compact.star.count
    ev.imageArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, 1 + 2 * Npairs, mp.Nsbp))
    ev.Eest = np.zeros((Npix, Nmode), dtype=complex)
    ev.IincoEst = np.zeros((Npix, Nmode))
    ev.IprobedMean = 0
    ev.Im = np.zeros((mp.Fend.Neta, mp.Fend.Nxi))
    ev.dm1 = falco.config.Object()
    ev.dm2 = falco.config.Object()
    if np.any(mp.dm_ind == 1):
        ev.dm1.Vall = np.zeros((mp.dm1.Nact, mp.dm1.Nact, 1 + 2 * Npairs, mp.Nsbp))
    if np.any(mp.dm_ind == 2):
        ev.dm2.Vall = np.zeros((mp.dm2.Nact, mp.dm2.Nact, 1 + 2 * Npairs, mp.Nsbp))

    # phases 0, pi, pi/N, pi + pi/N, ...: each pair is a probe and its negative
    phases = np.array([0, Npairs])
    for k in range(Npairs - 1):
        phases = np.append(phases, phases[-1] - (Npairs - 1))
        phases = np.append(phases, phases[-1] + Npairs)
    phases = phases * np.pi / Npairs

    if mp.estimator in ('pairwise', 'pairwise-square', 'pwp-bp-square'):
        axes = ''
        axis = mp.est.probe.axis.lower()
        if axis == 'y':
            for k in range(2 * Npairs):
                axes += 'y'
        elif axis == 'x':
            for k in range(2 * Npairs):
                axes += 'x'
        elif axis in ('alt', 'xy', 'alternate'):
            if Itr % 2 == 0:
                for k in range(2 * Npairs):
                    if (k + 1) % 4 == 1 or (k + 1) % 4 == 2:
                        axes += 'x'
                    elif (k + 1) % 4 == 3 or (k + 1) % 4 == 0:
                        axes += 'y'
            else:
                for k in range(2 * Npairs):
                    if (k + 1) % 4 == 1 or (k + 1) % 4 == 2:
                        axes += 'y'
                    elif (k + 1) % 4 == 3 or (k + 1) % 4 == 0:
                        axes += 'x'
        elif axis in ('m', 'multi'):
            for k in range(2 * Npairs):
                axes += 'm'
        else:
            raise ValueError('axis')

    for star in range(mp.compact.star.count):
        modvar = falco.config.ModelVariables()
        modvar.starIndex = star
        modvar.whichSource = 'star'
        for sbp in range(mp.Nsbp):
            modvar.sbpIndex = sbp
            mode = star * mp.Nsbp + sbp
            mp.dm1.V = V1.copy()
            mp.dm2.V = V2.copy()
            Iplus = np.zeros((Npix, Npairs))
            Iminus = np.zeros((Npix, Npairs))
            DM1Vplus = np.zeros((Nact, Nact, Npairs))
            DM1Vminus = np.zeros((Nact, Nact, Npairs))
            DM2Vplus = np.zeros((Nact, Nact, Npairs))
            DM2Vminus = np.zeros((Nact, Nact, Npairs))
            I0 = falco.imaging.get_sbp_image(mp, sbp)
            I0vec = I0[dark]
            if star == 0:
                ev.Im += mp.sbp_weights[sbp] * I0
                ev.imageArray[:, :, 0, sbp] = I0
                if np.any(mp.dm_ind == 1):
                    ev.dm1.Vall[:, :, 0, sbp] = mp.dm1.V.copy()
                if np.any(mp.dm_ind == 2):
                    ev.dm2.Vall[:, :, 0, sbp] = mp.dm2.V.copy()
            ev.corr = falco.config.Object()
            ev.corr.Inorm = np.mean(I0[dark])
            ev.score = falco.config.Object()
            ev.score.Inorm = np.mean(I0[mp.Fend.score.maskBool])
            if sched.InormProbeVec is None:
                ev.InormProbeMax = mp.est.InormProbeMax
                InormProbe = np.min([np.sqrt(np.max(I0vec) * 1e-5), ev.InormProbeMax])
            else:
                InormProbe = sched.InormProbeVec[Itr]

            nplus = 0
            nminus = 0
            for k in range(2 * Npairs):
                if mp.estimator in ('pairwise', 'pairwise-square', 'pwp-bp-square'):
                    probeCmd = falco.est.gen_pairwise_probe_square(mp, InormProbe, phases[k], axes[k], mp.est.probe.rotation)
                elif mp.estimator in ('pairwise-rect', 'pwp-bp', 'pwp-kf'):
                    probeCmd = falco.est.gen_pairwise_probe(mp, InormProbe, phases[k], star, mp.est.probe.rotation)
                dDM1Vprobe = probeCmd if which == 1 else 0
                dDM2Vprobe = probeCmd if which == 2 else 0
                if np.any(mp.dm_ind == 1):
                    mp.dm1.V = V1 + dDM1Vprobe
                if np.any(mp.dm_ind == 2):
                    mp.dm2.V = V2 + dDM2Vprobe
                Im = falco.imaging.get_sbp_image(mp, sbp)
                ev.IprobedMean = ev.IprobedMean + np.mean(Im[dark]) / (2 * Npairs)
                ev.imageArray[:, :, 1 + k, sbp] = Im
                if np.any(mp.dm_ind == 1):
                    ev.dm1.Vall[:, :, 1 + k, sbp] = mp.dm1.V
                if np.any(mp.dm_ind == 2):
                    ev.dm2.Vall[:, :, 1 + k, sbp] = mp.dm2.V
                if (k + 1) % 2 == 1:
                    if which == 1:
                        DM1Vplus[:, :, nplus] = dDM1Vprobe + V1
                    if which == 2:
                        DM2Vplus[:, :, nplus] = dDM2Vprobe + V2
                    Iplus[:, nplus] = Im[dark]
                    nplus += 1
                elif (k + 1) % 2 == 0:
                    if which == 1:
                        DM1Vminus[:, :, nminus] = dDM1Vprobe + V1
                    if which == 2:
                        DM2Vminus[:, :, nminus] = dDM2Vprobe + V2
                    Iminus[:, nminus] = Im[dark]
                    nminus += 1

            ampSq = (Iplus + Iminus) / 2 - np.tile(I0vec.reshape((-1, 1)), (1, Npairs))
            ampSq[ampSq < 0] = 0
            amp = np.sqrt(ampSq)
            z = ((Iplus - Iminus) / 4).T
            ev.iStar = star

            if mp.est.flagUseJac:
                dEplus = np.zeros_like(Iplus, dtype=complex)
                for p in range(Npairs):
                    if which == 1:
                        dV = DM1Vplus[:, :, p] - V1
                        dEplus[:, p] = jacStruct.G1[:, :, mode] @ dV.flatten()[mp.dm1.act_ele]
                    elif which == 2:
                        dV = DM2Vplus[:, :, p] - V2
                        dEplus[:, p] = jacStruct.G2[:, :, mode] @ dV.flatten()[mp.dm2.act_ele]
            else:
                if np.any(mp.dm_ind == 1):
                    mp.dm1.V = V1.copy()
                if np.any(mp.dm_ind == 2):
                    mp.dm2.V = V2.copy()
                E0 = falco.model.compact(mp, modvar)
                E0vec = E0[dark]
                Eplus = np.zeros_like(Iplus, dtype=complex)
                Eminus = np.zeros_like(Iminus, dtype=complex)
                for p in range(Npairs):
                    if which == 1:
                        mp.dm1.V = np.squeeze(DM1Vplus[:, :, p])
                    if which == 2:
                        mp.dm2.V = np.squeeze(DM2Vplus[:, :, p])
                    Et = falco.model.compact(mp, modvar)
                    Eplus[:, p] = Et[dark]
                    if which == 1:
                        mp.dm1.V = np.squeeze(DM1Vminus[:, :, p])
                    if which == 2:
                        mp.dm2.V = np.squeeze(DM2Vminus[:, :, p])
                    Et = falco.model.compact(mp, modvar)
                    Eminus[:, p] = Et[dark]
                dEplus = Eplus - np.tile(E0vec.reshape((-1, 1)), (1, Npairs))
                dEminus = Eminus - np.tile(E0vec.reshape((-1, 1)), (1, Npairs))
                dphdm = np.zeros((Npix, Npairs))
                for p in range(Npairs):
                    dphdm[:, p] = np.arctan2(np.imag(dEplus[:, p] - dEminus[:, p]), np.real(dEplus[:, p] - dEminus[:, p]))

            if mp.estimator in ('pairwise', 'pairwise-square', 'pairwise-rect', 'pwp-bp', 'pwp-bp-square') or \
                    (mp.estimator == 'pwp-kf' and ev.Itr < mp.est.ItrStartKF):
                Eest = np.zeros((Npix,), dtype=complex)
                for pix in range(Npix):
                    if mp.est.flagUseJac:
                        dE = dEplus[pix, :].T
                        H = np.array([np.real(dE), np.imag(dE)]).T
                        x = np.linalg.pinv(H) @ z[:, pix]
                    else:
                        everything = np.arange(Npairs, dtype=int)
                        good = everything[amp[pix, :] > 0]
                        H = np.zeros([Npairs, 2])
                        if len(good) < 2:
                            x = np.zeros((2, 1))
                        else:
                            for p in range(Npairs):
                                H[p, :] = amp[pix, p] * np.array([np.cos(dphdm[pix, p]), np.sin(dphdm[pix, p])])
                            x = np.linalg.pinv(H[good, :]) @ z[good, pix]
                    Eest[pix] = x[0] + 1j * x[1]
                Eest[np.abs(Eest)**2 > mp.est.Ithreshold] = 0.0
                if mp.estimator == 'pwp-kf':
                    xOld = np.zeros((2 * Npix, 1))
                    for pix in range(Npix):
                        xOld[2*pix:2*pix+2, 0] = np.array([np.real(Eest[pix]), np.imag(Eest[pix])])
                    ev.xOld = xOld
                    ev.Pold_KF_array = np.tile(mp.est.Pcoef0 * np.eye(2), (Npix, 1, mp.Nsbp))
            else:
                raise NotImplementedError('Kalman filter')
            ev.Eest[:, mode] = Eest
            ev.IincoEst[:, mode] = I0vec - np.abs(Eest)**2

    ev.ampSqMean = np.mean(ampSq)
    ev.ampNorm = amp / np.sqrt(InormProbe)
    mp.dm1.V = V1
    mp.dm2.V = V2
    mp.dm_ind = used


def falco__est__gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
    check.real_positive_scalar(InormDes, 'InormDes', ValueError)
    check.real_scalar(psi, 'psi', TypeError)
    axis = badAxis.lower()
    if axis not in ('x', 'y', 'm'):
        raise ValueError('badAxis')
    if mp.est.probe.whichDM == 1:
        dm = mp.dm1
    elif mp.est.probe.whichDM == 2:
        dm = mp.dm2
    else:
        raise ValueError('whichDM')
    N = dm.Nact
    line = np.arange(-(N - 1) / 2, (N + 1) / 2) / N
    X, Y = np.meshgrid(line - np.round(mp.est.probe.xOffset) / N, line - np.round(mp.est.probe.yOffset) / N)
    if np.abs(rotation) > 10 * np.finfo(float).eps:
        r = np.sqrt(X**2 + Y**2)
        t = np.arctan2(Y, X)
        X = r * np.cos(t - np.radians(rotation))
        Y = r * np.sin(t - np.radians(rotation))
    radius = min(mp.est.probe.radius, N / 2.0)
    height = 4 * np.pi * mp.lambda0 * np.sqrt(InormDes)
    if axis == 'y':
        surf = height * np.sinc(radius * X) * np.sinc(2 * radius * Y) * np.cos(2 * np.pi * (radius / 2) * X + psi)
    elif axis == 'x':
        surf = height * np.sinc(2 * radius * X) * np.sinc(radius * Y) * np.cos(2 * np.pi * (radius / 2) * Y + psi)
    elif axis in ('m',):
        surf = np.zeros_like(X)
        for k in range(mp.Fend.Nfiber):
            surf = surf + height * np.sin(2 * np.pi * (mp.est.probe.Xloc / 2)[k] * X + 2 * np.pi * (mp.est.probe.Yloc / 2)[k] * Y + psi)
    else:
        raise ValueError('badAxis')
    if psi == 0 and axis != 'm':
        surf = height * np.sinc(2 * radius * X) * np.sinc(2 * radius * Y)
    return mp.est.probe.gainFudge * falco.dm.fit_surf_to_act(dm, surf)


def falco__est__gen_pairwise_probe(mp, InormDes, phaseShift, starIndex, rotation):
    p = mp.est.probe
    if p.xiOffset[starIndex] == 0 and p.etaOffset[starIndex] == 0:
        raise ValueError('centre')
    if p.whichDM == 1:
        dm = mp.dm1
    elif p.whichDM == 2:
        dm = mp.dm2
    else:
        raise ValueError('whichDM')
    N = dm.Nact
    line = np.linspace(-(N - 1) / 2, (N - 1) / 2, N) / N
    X, Y = np.meshgrid(line - float(round(p.xOffset)) / N, line - float(round(p.yOffset)) / N)
    if np.abs(rotation) > 10 * np.finfo(float).eps:
        r = np.sqrt(X**2 + Y**2)
        t = np.arctan2(Y, X)
        X = r * np.cos(t - np.radians(rotation))
        Y = r * np.sin(t - np.radians(rotation))
    scale = N / (mp.P2.D / dm.dm_spacing)
    height = 4 * np.pi * mp.lambda0 * np.sqrt(InormDes)
    surf = height * np.sinc(p.width[starIndex] * scale * X) * np.sinc(p.height[starIndex] * scale * Y) * \
        np.cos(2 * np.pi * (p.xiOffset[starIndex] * scale * X + p.etaOffset[starIndex] * scale * Y) + phaseShift)
    return p.gainFudge[starIndex] * falco.dm.fit_surf_to_act(dm, surf)


def falco__est__perfect(mp, ev):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    if hasattr(mp.full, 'pol_conds'):
        if set(mp.full.pol_conds) in ({-2, -1, 1, 2}, {10}):
            mp.full.polaxis = 10
        elif set(mp.full.pol_conds) in ({-1, 1}, {5}):
            mp.full.polaxis = 5
        elif set(mp.full.pol_conds) in ({-2, 2}, {6}):
            mp.full.polaxis = 6
        elif set(mp.full.pol_conds) == {0}:
            mp.full.polaxis = 0
        else:
            raise ValueError('pol_conds')
    ev.imageArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, 1, mp.Nsbp))
    Eest = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode), dtype=complex)
    modvar = falco.config.ModelVariables()
    for iMode in range(mp.jac.Nmode):
        modvar.sbpIndex = mp.jac.sbp_inds[iMode]
        modvar.zernIndex = mp.jac.zern_inds[iMode]
        modvar.starIndex = mp.jac.star_inds[iMode]
        modvar.whichSource = 'star'
        EmatSubband = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
        for wi in range(mp.Nwpsbp):
            modvar.wpsbpIndex = wi
            E2D = falco.model.full(mp, modvar)
            EmatSubband += mp.full.lambda_weights[wi] * E2D
        if mp.jac.zern_inds[iMode] == 1:
            ev.imageArray[:, :, 0, mp.jac.sbp_inds[iMode]] += np.abs(EmatSubband)**2
        Eest[:, iMode] = EmatSubband[mp.Fend.corr.maskBool]
    ev.Eest = Eest
    ev.IincoEst = np.zeros(Eest.shape, dtype=float)
    return ev
