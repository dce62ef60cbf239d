"""Reference definitions of the correction loop and its history (C14)."""
import os
import pickle
import time
import types
from copy import copy

import numpy as np

import falco


def falco__wfsc__loop(mp, out):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    cvar = falco.config.Object()
    ev = falco.config.Object()
    mp.thput_vec = np.zeros(mp.Nitr + 1)
    for it in range(mp.Nitr):
        cvar.Itr = it
        ev.Itr = it
        out.Itr = it
        out.serialDate[it] = time.time()
        if mp.controller.lower() in ['plannedefc']:
            mp.dm_ind = mp.dm_ind_sched[it]
        falco.wfsc.store_dm_command_history(mp, out, it)
        falco.imaging.calc_psf_norm_factor(mp)
        thput, offaxis = falco.imaging.calc_thput(mp)
        out.thput[it] = np.max(thput)
        mp.thput_vec[it] = np.max(thput)
        if mp.controller.lower() != 'ad-efc':
            falco.setup.falco_set_jacobian_modal_weights(mp)
            cvar.flagRelin = np.any(mp.relinItrVec == it) or it == 0
            if cvar.flagRelin:
                jac = falco.model.jacobian(mp)
            falco.ctrl.cull_weak_actuators(mp, cvar, jac)
        else:
            jac = None
        if it > 0:
            Eprev = ev.Eest
        falco.est.wrapper(mp, ev, jac)
        falco.wfsc.store_intensities(mp, out, ev, it)
        falco.plot.wfsc_progress(mp, out, ev, it, offaxis)
        if it > 0:
            sim_prev = sim
        sim = falco.wfsc.compute_simulated_efield_for_delta_efield_plot(mp)
        if it > 0:
            falco.plot.delta_efield(mp, out, ev.Eest, Eprev, sim, sim_prev, it)
        if mp.flagSVD:
            falco.plot.singular_mode_spectrum_of_Efield(mp, out, jac, ev.Eest, it)
        cvar.Eest = ev.Eest
        cvar.NeleAll = (mp.dm1.Nele + mp.dm2.Nele + mp.dm3.Nele + mp.dm4.Nele + mp.dm5.Nele + mp.dm6.Nele + mp.dm7.Nele + mp.dm8.Nele
                        + mp.dm9.Nele)
        falco.ctrl.wrapper(mp, cvar, copy(jac))
        out.log10regHist[it] = cvar.log10regUsed
        if hasattr(cvar, 'Im') and not mp.ctrl.flagUseModel:
            out.IrawScoreHist[it + 1] = np.mean(cvar.Im[mp.Fend.score.maskBool])
            out.IrawCorrHist[it + 1] = np.mean(cvar.Im[mp.Fend.corr.maskBool])
            out.InormHist[it + 1] = out.IrawCorrHist[it + 1]
        if any(mp.dm_ind == 1):
            mp.dm1 = falco.dm.enforce_constraints(mp.dm1)
        if any(mp.dm_ind == 2):
            mp.dm2 = falco.dm.enforce_constraints(mp.dm2)
        falco.wfsc.falco_compute_dm_stats(mp, out, it)
        if (mp.eval.Rsens.size > 0) and (mp.eval.indsZnoll.size > 0):
            out.Zsens[:, :, it] = falco.zern.calc_zern_sens(mp)
        with open(os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl')), 'wb') as f:
            pickle.dump(out, f)
    last = it + 1
    falco.wfsc.store_dm_command_history(mp, out, last)
    thput, offaxis = falco.imaging.calc_thput(mp)
    out.thput[last] = thput
    mp.thput_vec[last] = np.max(thput)
    if hasattr(cvar, 'Im') and not mp.ctrl.flagUseModel:
        ev.Im = cvar.Im
    with open(os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl')), 'wb') as f:
        pickle.dump(out, f)
    if mp.flagSaveWS:
        with open(os.path.join(mp.path.ws, mp.runLabel + '_all.pkl'), 'wb') as f:
            pickle.dump(mp, f)
    return None


def falco__wfsc__store_dm_command_history(mp, out, Itr):
    if hasattr(mp, 'dm1') and hasattr(mp.dm1, 'V'):
        out.dm1.Vall[:, :, Itr] = mp.dm1.V
    if hasattr(mp, 'dm2') and hasattr(mp.dm2, 'V'):
        out.dm2.Vall[:, :, Itr] = mp.dm2.V
    if hasattr(mp, 'dm5') and hasattr(mp.dm5, 'V'):
        out.dm5.Vall[:, :, Itr] = mp.dm5.V
    if hasattr(mp, 'dm8') and hasattr(mp.dm8, 'V'):
        out.dm8.Vall[:, Itr] = mp.dm8.V
    if hasattr(mp, 'dm9') and hasattr(mp.dm9, 'V'):
        out.dm9.Vall[:, Itr] = mp.dm9.V


def _stats(mp, dm, hist, Itr):
    hist.Vpv[Itr] = np.max(dm.V) - np.min(dm.V)
    axis = falco.util.create_axis(dm.compact.Ndm, mp.P2.compact.dx / mp.P2.D, centering=mp.centering)
    r = falco.util.radial_grid(axis)
    lit = np.logical_and(r >= mp.P1.IDnorm / 2, r <= 0.5)
    surf = falco.dm.gen_surf_from_act(dm, dm.compact.dx, dm.compact.Ndm)
    hist.Spv[Itr] = np.max(surf) - np.min(surf)
    hist.Srms[Itr] = np.sqrt(np.mean(np.abs(surf[lit])**2))


def falco__wfsc__falco_compute_dm_stats(mp, out, Itr):
    if any(mp.dm_ind == 1):
        _stats(mp, mp.dm1, out.dm1, Itr)
    if any(mp.dm_ind == 2):
        _stats(mp, mp.dm2, out.dm2, Itr)


def _in2d(mp, vec):
    img = np.zeros((mp.Fend.Neta, mp.Fend.Nxi))
    img[mp.Fend.corr.maskBool] = vec.flatten()
    return img


def falco__wfsc__store_intensities(mp, out, ev, Itr):
    coh = np.abs(ev.Eest)**2
    inc = ev.IincoEst.copy()
    for m in range(mp.jac.Nmode):
        w = mp.sbp_weights[mp.jac.sbp_inds[m]]
        coh[:, m] = w * coh[:, m]
        inc[:, m] = w * inc[:, m]
    c2 = _in2d(mp, np.sum(coh, axis=1))
    i2 = _in2d(mp, np.sum(inc, axis=1))
    out.IestScoreHist[Itr] = np.mean(c2[mp.Fend.score.maskBool])
    out.IestCorrHist[Itr] = np.mean(c2[mp.Fend.corr.maskBool])
    out.IincoScoreHist[Itr] = np.mean(i2[mp.Fend.score.maskBool])
    out.IincoCorrHist[Itr] = np.mean(i2[mp.Fend.corr.maskBool])
    out.IrawScoreHist[Itr] = np.mean(ev.Im[mp.Fend.score.maskBool])
    out.IrawCorrHist[Itr] = np.mean(ev.Im[mp.Fend.corr.maskBool])
    out.InormHist[Itr] = out.IrawCorrHist[Itr]
    for k in range(mp.Nsbp):
        meas = np.squeeze(ev.imageArray[:, :, 0, k])
        out.normIntMeasCorr[Itr, k] = np.mean(meas[mp.Fend.corr.maskBool])
        out.normIntMeasScore[Itr, k] = np.mean(meas[mp.Fend.score.maskBool])
    for m in range(mp.jac.Nmode):
        mod = np.abs(ev.Eest[:, m])**2
        unmod = ev.IincoEst[:, m]
        out.normIntModCorr[Itr, m] = np.mean(mod)
        out.normIntModScore[Itr, m] = np.mean(mod[mp.Fend.scoreInCorr])
        out.normIntUnmodCorr[Itr, m] = np.mean(unmod)
        out.normIntUnmodScore[Itr, m] = np.mean(unmod[mp.Fend.scoreInCorr])


def falco__setup__init_storage_arrays(mp):
    out = types.SimpleNamespace()
    out.dm1 = types.SimpleNamespace()
    out.dm2 = types.SimpleNamespace()
    out.dm8 = types.SimpleNamespace()
    out.dm9 = types.SimpleNamespace()
    out.Fend = types.SimpleNamespace()
    out.Fend.corr = types.SimpleNamespace()
    out.Fend.score = types.SimpleNamespace()
    n = mp.Nitr
    out.Nitr = n
    for d in (out.dm1, out.dm2, out.dm8, out.dm9):
        d.Vpv = np.zeros(n)
        d.Spv = np.zeros(n)
        d.Srms = np.zeros(n)
    out.log10regHist = np.zeros(n)
    out.serialDate = np.zeros(n)
    out.EforSpectra = []
    out.smspectra = []
    out.sm = []
    out.alpha2 = []
    if not hasattr(mp.eval, 'Rsens'):
        mp.eval.Rsens = np.array([])
    if not hasattr(mp.eval, 'indsZnoll'):
        mp.eval.indsZnoll = [2, 3]
    out.Zsens = np.zeros((len(mp.eval.indsZnoll), mp.eval.Rsens.shape[0], n))
    # commands, intensities and throughput: one slot more, for the state after the last iteration
    if hasattr(mp, 'dm1'):
        if hasattr(mp.dm1, 'V'):
            out.dm1.Vall = np.zeros((mp.dm1.Nact, mp.dm1.Nact, n + 1))
    if hasattr(mp, 'dm2'):
        if hasattr(mp.dm2, 'V'):
            out.dm2.Vall = np.zeros((mp.dm2.Nact, mp.dm2.Nact, n + 1))
    if hasattr(mp, 'dm8'):
        if hasattr(mp.dm8, 'V'):
            out.dm8.Vall = np.zeros((mp.dm8.NactTotal, n + 1))
    if hasattr(mp, 'dm9'):
        if hasattr(mp.dm9, 'V'):
            out.dm9.Vall = np.zeros((mp.dm9.NactTotal, n + 1))
    out.InormHist = np.zeros(n + 1)
    out.IrawCorrHist = np.zeros(n + 1)
    out.IrawScoreHist = np.zeros(n + 1)
    out.thput = np.zeros(n + 1)
    out.IestCorrHist = np.zeros(n)
    out.IestScoreHist = np.zeros(n)
    out.IincoCorrHist = np.zeros(n)
    out.IincoScoreHist = np.zeros(n)
    # steps between iterations
    out.complexProjection = np.zeros((n - 1, mp.Nsbp))
    out.complexCorrelation = np.zeros((n - 1, mp.Nsbp))
    # images per subband, estimates per Jacobian mode
    out.normIntMeasCorr = np.zeros((n, mp.Nsbp))
    out.normIntMeasScore = np.zeros((n, mp.Nsbp))
    out.normIntModCorr = np.zeros((n, mp.jac.Nmode))
    out.normIntModScore = np.zeros((n, mp.jac.Nmode))
    out.normIntUnmodCorr = np.zeros((n, mp.jac.Nmode))
    out.normIntUnmodScore = np.zeros((n, mp.jac.Nmode))
    out.Fend.res = mp.Fend.res
    out.Fend.xisDL = mp.Fend.xisDL
    out.Fend.etasDL = mp.Fend.etasDL
    out.Fend.scoreInCorr = mp.Fend.scoreInCorr
    out.Fend.corr.maskBool = mp.Fend.corr.maskBool
    out.Fend.score.maskBool = mp.Fend.score.maskBool
    return out
