"""Positive examples of C14: wrong (bad*) and merely rewritten (good*) variants of compared functions."""
import os
import pickle
import time
import types
from copy import copy

import numpy as np

import falco


def bad__falco__wfsc__loop(mp, out):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    cvar = falco.config.Object()
    ev = falco.config.Object()
    mp.thput_vec = np.zeros(mp.Nitr + 1)
    for it in range(mp.Nitr):
        cvar.Itr = it
        ev.Itr = it
        out.Itr = it
        out.serialDate[it] = time.time()
        if mp.controller.lower() in ['plannedefc']:
            mp.dm_ind = mp.dm_ind_sched[it]
        falco.wfsc.store_dm_command_history(mp, out, it)
        falco.imaging.calc_psf_norm_factor(mp)
        thput, offaxis = falco.imaging.calc_thput(mp)
        out.thput[it] = np.max(thput)
        mp.thput_vec[it] = np.max(thput)
        if mp.controller.lower() != 'ad-efc':
            falco.setup.falco_set_jacobian_modal_weights(mp)
            cvar.flagRelin = np.any(mp.relinItrVec == it)
            if cvar.flagRelin:
                jac = falco.model.jacobian(mp)
            falco.ctrl.cull_weak_actuators(mp, cvar, jac)
        else:
            jac = None
        if it > 0:
            Eprev = ev.Eest
        falco.est.wrapper(mp, ev, jac)
        falco.wfsc.store_intensities(mp, out, ev, it)
        falco.plot.wfsc_progress(mp, out, ev, it, offaxis)
        if it > 0:
            sim_prev = sim
        sim = falco.wfsc.compute_simulated_efield_for_delta_efield_plot(mp)
        if it > 0:
            falco.plot.delta_efield(mp, out, ev.Eest, Eprev, sim, sim_prev, it)
        if mp.flagSVD:
            falco.plot.singular_mode_spectrum_of_Efield(mp, out, jac, ev.Eest, it)
        cvar.Eest = ev.Eest
        cvar.NeleAll = (mp.dm1.Nele + mp.dm2.Nele + mp.dm3.Nele + mp.dm4.Nele + mp.dm5.Nele + mp.dm6.Nele + mp.dm7.Nele + mp.dm8.Nele
                        + mp.dm9.Nele)
        falco.ctrl.wrapper(mp, cvar, copy(jac))
        out.log10regHist[it] = cvar.log10regUsed
        if hasattr(cvar, 'Im') and not mp.ctrl.flagUseModel:
            out.IrawScoreHist[it + 1] = np.mean(cvar.Im[mp.Fend.score.maskBool])
            out.IrawCorrHist[it + 1] = np.mean(cvar.Im[mp.Fend.corr.maskBool])
            out.InormHist[it + 1] = out.IrawCorrHist[it + 1]
        if any(mp.dm_ind == 1):
            mp.dm1 = falco.dm.enforce_constraints(mp.dm1)
        if any(mp.dm_ind == 2):
            mp.dm2 = falco.dm.enforce_constraints(mp.dm2)
        falco.wfsc.falco_compute_dm_stats(mp, out, it)
        if (mp.eval.Rsens.size > 0) and (mp.eval.indsZnoll.size > 0):
            out.Zsens[:, :, it] = falco.zern.calc_zern_sens(mp)
        with open(os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl')), 'wb') as f:
            pickle.dump(out, f)
    last = it + 1
    falco.wfsc.store_dm_command_history(mp, out, last)
    thput, offaxis = falco.imaging.calc_thput(mp)
    out.thput[last] = thput
    mp.thput_vec[last] = np.max(thput)
    if hasattr(cvar, 'Im') and not mp.ctrl.flagUseModel:
        ev.Im = cvar.Im
    with open(os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl')), 'wb') as f:
        pickle.dump(out, f)
    if mp.flagSaveWS:
        with open(os.path.join(mp.path.ws, mp.runLabel + '_all.pkl'), 'wb') as f:
            pickle.dump(mp, f)
    return None


def bad2__falco__wfsc__loop(mp, out):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    cvar = falco.config.Object()
    ev = falco.config.Object()
    mp.thput_vec = np.zeros(mp.Nitr + 1)
    for it in range(mp.Nitr):
        cvar.Itr = it
        ev.Itr = it
        out.Itr = it
        out.serialDate[it] = time.time()
        if mp.controller.lower() in ['plannedefc']:
            mp.dm_ind = mp.dm_ind_sched[it]
        falco.imaging.calc_psf_norm_factor(mp)
        thput, offaxis = falco.imaging.calc_thput(mp)
        out.thput[it] = np.max(thput)
        mp.thput_vec[it] = np.max(thput)
        if mp.controller.lower() != 'ad-efc':
            falco.setup.falco_set_jacobian_modal_weights(mp)
            cvar.flagRelin = np.any(mp.relinItrVec == it) or it == 0
            if cvar.flagRelin:
                jac = falco.model.jacobian(mp)
            falco.ctrl.cull_weak_actuators(mp, cvar, jac)
        else:
            jac = None
        if it > 0:
            Eprev = ev.Eest
        falco.est.wrapper(mp, ev, jac)
        falco.wfsc.store_intensities(mp, out, ev, it)
        falco.plot.wfsc_progress(mp, out, ev, it, offaxis)
        if it > 0:
            sim_prev = sim
        sim = falco.wfsc.compute_simulated_efield_for_delta_efield_plot(mp)
        if it > 0:
            falco.plot.delta_efield(mp, out, ev.Eest, Eprev, sim, sim_prev, it)
        if mp.flagSVD:
            falco.plot.singular_mode_spectrum_of_Efield(mp, out, jac, ev.Eest, it)
        cvar.Eest = ev.Eest
        cvar.NeleAll = (mp.dm1.Nele + mp.dm2.Nele + mp.dm3.Nele + mp.dm4.Nele + mp.dm5.Nele + mp.dm6.Nele + mp.dm7.Nele + mp.dm8.Nele
                        + mp.dm9.Nele)
        falco.ctrl.wrapper(mp, cvar, copy(jac))
        out.log10regHist[it] = cvar.log10regUsed
        if hasattr(cvar, 'Im') and not mp.ctrl.flagUseModel:
            out.IrawScoreHist[it + 1] = np.mean(cvar.Im[mp.Fend.score.maskBool])
            out.IrawCorrHist[it + 1] = np.mean(cvar.Im[mp.Fend.corr.maskBool])
            out.InormHist[it + 1] = out.IrawCorrHist[it + 1]
        if any(mp.dm_ind == 1):
            mp.dm1 = falco.dm.enforce_constraints(mp.dm1)
        if any(mp.dm_ind == 2):
            mp.dm2 = falco.dm.enforce_constraints(mp.dm2)
        falco.wfsc.falco_compute_dm_stats(mp, out, it)
        falco.wfsc.store_dm_command_history(mp, out, it)
        if (mp.eval.Rsens.size > 0) and (mp.eval.indsZnoll.size > 0):
            out.Zsens[:, :, it] = falco.zern.calc_zern_sens(mp)
        with open(os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl')), 'wb') as f:
            pickle.dump(out, f)
    last = it + 1
    falco.wfsc.store_dm_command_history(mp, out, last)
    thput, offaxis = falco.imaging.calc_thput(mp)
    out.thput[last] = thput
    mp.thput_vec[last] = np.max(thput)
    if hasattr(cvar, 'Im') and not mp.ctrl.flagUseModel:
        ev.Im = cvar.Im
    with open(os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl')), 'wb') as f:
        pickle.dump(out, f)
    if mp.flagSaveWS:
        with open(os.path.join(mp.path.ws, mp.runLabel + '_all.pkl'), 'wb') as f:
            pickle.dump(mp, f)
    return None


def good__falco__wfsc__loop(mp, out):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    cvar = falco.config.Object()
    ev = falco.config.Object()
    mp.thput_vec = np.zeros(mp.Nitr + 1)
    for it in range(mp.Nitr):
        out.Itr = it
        ev.Itr = it
        cvar.Itr = it
        out.serialDate[it] = time.time()
        if mp.controller.lower() in ['plannedefc']:
            mp.dm_ind = mp.dm_ind_sched[it]
        falco.wfsc.store_dm_command_history(mp, out, it)
        falco.imaging.calc_psf_norm_factor(mp)
        thput, offaxis = falco.imaging.calc_thput(mp)
        out.thput[it] = np.max(thput)
        mp.thput_vec[it] = np.max(thput)
        if mp.controller.lower() != 'ad-efc':
            falco.setup.falco_set_jacobian_modal_weights(mp)
            cvar.flagRelin = np.any(mp.relinItrVec == it) or it == 0
            if cvar.flagRelin:
                G = falco.model.jacobian(mp)
            falco.ctrl.cull_weak_actuators(mp, cvar, G)
        else:
            G = None
        if it > 0:
            Eprev = ev.Eest
        falco.est.wrapper(mp, ev, G)
        falco.wfsc.store_intensities(mp, out, ev, it)
        falco.plot.wfsc_progress(mp, out, ev, it, offaxis)
        if it > 0:
            sim_prev = sim
        sim = falco.wfsc.compute_simulated_efield_for_delta_efield_plot(mp)
        if it > 0:
            falco.plot.delta_efield(mp, out, ev.Eest, Eprev, sim, sim_prev, it)
        if mp.flagSVD:
            falco.plot.singular_mode_spectrum_of_Efield(mp, out, G, ev.Eest, it)
        cvar.Eest = ev.Eest
        cvar.NeleAll = (mp.dm1.Nele + mp.dm2.Nele + mp.dm3.Nele + mp.dm4.Nele + mp.dm5.Nele + mp.dm6.Nele + mp.dm7.Nele + mp.dm8.Nele
                        + mp.dm9.Nele)
        falco.ctrl.wrapper(mp, cvar, copy(G))
        out.log10regHist[it] = cvar.log10regUsed
        if hasattr(cvar, 'Im') and not mp.ctrl.flagUseModel:
            out.IrawScoreHist[it + 1] = np.mean(cvar.Im[mp.Fend.score.maskBool])
            out.IrawCorrHist[it + 1] = np.mean(cvar.Im[mp.Fend.corr.maskBool])
            out.InormHist[it + 1] = out.IrawCorrHist[it + 1]
        if any(mp.dm_ind == 1):
            mp.dm1 = falco.dm.enforce_constraints(mp.dm1)
        if any(mp.dm_ind == 2):
            mp.dm2 = falco.dm.enforce_constraints(mp.dm2)
        falco.wfsc.falco_compute_dm_stats(mp, out, it)
        if (mp.eval.Rsens.size > 0) and (mp.eval.indsZnoll.size > 0):
            out.Zsens[:, :, it] = falco.zern.calc_zern_sens(mp)
        with open(os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl')), 'wb') as f:
            pickle.dump(out, f)
    last = it + 1
    falco.wfsc.store_dm_command_history(mp, out, last)
    thput, offaxis = falco.imaging.calc_thput(mp)
    out.thput[last] = thput
    mp.thput_vec[last] = np.max(thput)
    if hasattr(cvar, 'Im') and not mp.ctrl.flagUseModel:
        ev.Im = cvar.Im
    with open(os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl')), 'wb') as f:
        pickle.dump(out, f)
    if mp.flagSaveWS:
        with open(os.path.join(mp.path.ws, mp.runLabel + '_all.pkl'), 'wb') as f:
            pickle.dump(mp, f)
    return None


def bad__falco__wfsc__store_dm_command_history(mp, out, Itr):
    if hasattr(mp, 'dm1') and hasattr(mp.dm1, 'V'):
        out.dm1.Vall[:, :, Itr] = mp.dm1.V
    if hasattr(mp, 'dm2') and hasattr(mp.dm2, 'V'):
        out.dm2.Vall[:, :, Itr] = mp.dm1.V
    if hasattr(mp, 'dm5') and hasattr(mp.dm5, 'V'):
        out.dm5.Vall[:, :, Itr] = mp.dm5.V
    if hasattr(mp, 'dm8') and hasattr(mp.dm8, 'V'):
        out.dm8.Vall[:, Itr] = mp.dm8.V
    if hasattr(mp, 'dm9') and hasattr(mp.dm9, 'V'):
        out.dm9.Vall[:, Itr] = mp.dm9.V
