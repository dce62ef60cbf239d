"""What each function refuses (arguments and option values), before it does anything else."""
import copy
import os

from astropy.io import fits
import falco
import numpy as np
import scipy.sparse
from scipy.interpolate import griddata
from falco import check, diff_dm, proper
from falco.check import nonnegative_scalar_integer, oneD_array, positive_scalar_integer, real_array, real_nonnegative_scalar, real_positive_scalar, real_scalar, scalar_integer, threeD_array, twoD_array, twoD_square_array
from falco.util import ceil_even, pad_crop


def falco__config__Eval__Eval__evaluate(self):
    if self.in_progress:
        raise ValueError()
    self.in_progress = True


def falco__ctrl__cull_weak_actuators(mp, cvar, jacStruct):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()


def falco__ctrl__wrapper(mp, cvar, jacStruct):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    if mp.controller.lower() == 'ad-efc':
        pass
    elif mp.controller.lower() == 'plannedefc':
        pass
    elif mp.controller.lower() == 'gridsearchefc':
        pass
    else:
        raise ValueError()


def falco__diff_dm__DM____init__(self, ifn, NoutDefault, Nact=50, sep=10, shift=(0, 0), rot=(0, 0, 0), upsample=1, rot_order='zyx'):
    s = ifn.shape
    self.ifn = ifn
    self.rot = rot
    self.rot_order = rot_order
    if np.allclose(rot, [0, 0, 0]):
        pass
    else:
        if self.rot_order == 'zyx':
            use_zyx_order = True
        elif self.rot_order == 'xyz':
            use_zyx_order = False
        else:
            raise ValueError()
        fwd, rev = prepare_fwd_reverse_projection_coordinates(s, rot, use_zyx_order)
        self.projx, self.projy = fwd
        self.invprojx, self.invprojy = rev


def falco__diff_dm__dm_init_falco_wrapper(dm, dx, Narray, dm_z0, dm_xc, dm_yc, spacing=0.0, **kwargs):
    if 'ZYX' in kwargs and 'XYZ' in kwargs:
        raise ValueError()
    if 'inf_fn' in kwargs:
        inf_fn = kwargs['inf_fn']
    else:
        inf_fn = 'influence_dm5v2.fits'
    if 'inf_sign' in kwargs:
        if kwargs['inf_sign'] == '+':
            pass
        elif kwargs['inf_sign'] == '-':
            pass
        else:
            raise ValueError()
    dx_surf = dx
    beamradius = Narray * dx_surf / 2.0
    dir_path = os.path.join(os.path.dirname(os.path.realpath(falco.diff_dm.__file__)), 'data')
    header = fits.getheader(os.path.join(dir_path, inf_fn))
    dx_inf = header['P2PDX_M']
    dx_dm_inf = header['C2CDX_M']
    inf_mag = round(dx_dm_inf / dx_inf)
    if np.abs(inf_mag - dx_dm_inf / dx_inf) > 1e-08:
        raise ValueError()
    if spacing != 0 and 'N_ACT_ACROSS_PUPIL' in kwargs:
        raise ValueError()
    if spacing == 0 and 'N_ACT_ACROSS_PUPIL' not in kwargs:
        raise ValueError()
    if 'N_ACT_ACROSS_PUPIL' in kwargs:
        dx_dm = 2.0 * beamradius / int(kwargs['N_ACT_ACROSS_PUPIL'])
    else:
        dx_dm = spacing
    dx_inf = dx_inf * dx_dm / dx_dm_inf


def falco__dm__apply_neighbor_rule(Vin, Vlim, Nact):
    check.twoD_array(Vin, 'Vin', TypeError)
    check.real_scalar(Vlim, 'Vlim', TypeError)
    check.positive_scalar_integer(Nact, 'Nact', TypeError)


def falco__dm__build_prefilter(nrow, ncol, inf_func, ppa_in):
    check.positive_scalar_integer(nrow, 'nrow', TypeError)
    check.positive_scalar_integer(ncol, 'ncol', TypeError)
    check.twoD_array(inf_func, 'inf_func', TypeError)
    check.real_positive_scalar(ppa_in, 'ppa_in', TypeError)


def falco__dm__derotate_resize_surface(surfaceToFit, dx, Nact, dm_xc, dm_yc, spacing, **kwargs):
    check.twoD_array(surfaceToFit, 'surfaceToFit', TypeError)
    check.real_positive_scalar(dx, 'dx', TypeError)
    check.real_scalar(dm_xc, 'dm_xc', TypeError)
    check.real_scalar(dm_yc, 'dm_yc', TypeError)
    check.real_positive_scalar(spacing, 'spacing', TypeError)
    if 'ZYX' in kwargs and 'XYZ' in kwargs:
        raise ValueError()
    if 'inf_fn' in kwargs:
        inf_fn = kwargs['inf_fn']
    else:
        inf_fn = 'influence_dm5v2.fits'
    if 'inf_sign' in kwargs:
        if kwargs['inf_sign'] == '+':
            pass
        elif kwargs['inf_sign'] == '-':
            pass
        else:
            raise ValueError()
    dir_path = os.path.join(os.path.dirname(os.path.realpath(falco.dm.__file__)), 'data')
    header = fits.getheader(os.path.join(dir_path, inf_fn))
    dx_inf = header['P2PDX_M']
    dx_dm_inf = header['C2CDX_M']
    inf_mag = round(dx_dm_inf / dx_inf)
    if np.abs(inf_mag - dx_dm_inf / dx_inf) > 1e-08:
        raise ValueError()
    dx_dm = spacing
    dx_inf = dx_inf * dx_dm / dx_dm_inf


def falco__dm__discretize_surf(dm, HminStepMethod):
    if not isinstance(HminStepMethod, str):
        raise TypeError()
    if 'round' in HminStepMethod.lower():
        pass
    elif 'floor' in HminStepMethod.lower():
        pass
    elif 'ceil' in HminStepMethod.lower():
        pass
    elif 'fix' in HminStepMethod.lower():
        pass
    else:
        raise ValueError()


def falco__dm__fit_surf_to_act(dm, surfaceToFit):
    check.twoD_array(surfaceToFit, 'surfaceToFit', TypeError)
    [mSurface, nSurface] = surfaceToFit.shape
    if nSurface == dm.Nact:
        pass
    elif nSurface > dm.Nact:
        pass
    elif nSurface < dm.Nact:
        raise ValueError()
    if dm.surfFitMethod.lower() == 'lsq':
        pass
    elif dm.surfFitMethod.lower() == 'proper':
        pass
    else:
        raise ValueError()


def falco__dm__fit_surf_with_dm_lsq(surf, act_effect):
    check.twoD_array(surf, 'surf', TypeError)
    if not scipy.sparse.issparse(act_effect):
        raise TypeError()
    sr, sc = surf.shape
    ar, ac = act_effect.shape
    if not (ar, ac) == (sr * sc, sr * sc):
        raise TypeError()


def falco__dm__fit_surf_with_dm_lsq_wrapper(dm, surfaceToFit):
    check.twoD_array(surfaceToFit, 'surfaceToFit', TypeError)
    [nrow, ncol] = surfaceToFit.shape
    if nrow != dm.Nact or ncol != dm.Nact:
        raise ValueError()


def falco__dm__gen_surf_from_poke_cube(dm, model_type):
    if model_type not in ('compact', 'full'):
        raise ValueError()


def falco__dm__propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0.0, **kwargs):
    if 'ZYX' in kwargs and 'XYZ' in kwargs:
        raise ValueError()
    if 'inf_fn' in kwargs:
        inf_fn = kwargs['inf_fn']
    else:
        inf_fn = 'influence_dm5v2.fits'
    if 'inf_sign' in kwargs:
        if kwargs['inf_sign'] == '+':
            pass
        elif kwargs['inf_sign'] == '-':
            pass
        else:
            raise ValueError()
    beamradius = proper.prop_get_beamradius(wf)
    dir_path = os.path.join(os.path.dirname(os.path.realpath(falco.dm.__file__)), 'data')
    header = fits.getheader(os.path.join(dir_path, inf_fn))
    dx_inf = header['P2PDX_M']
    dx_dm_inf = header['C2CDX_M']
    inf_mag = round(dx_dm_inf / dx_inf)
    if np.abs(inf_mag - dx_dm_inf / dx_inf) > 1e-08:
        raise ValueError()
    if spacing != 0 and 'N_ACT_ACROSS_PUPIL' in kwargs:
        raise ValueError()
    if spacing == 0 and 'N_ACT_ACROSS_PUPIL' not in kwargs:
        raise ValueError()
    if 'N_ACT_ACROSS_PUPIL' in kwargs:
        dx_dm = 2.0 * beamradius / int(kwargs['N_ACT_ACROSS_PUPIL'])
    else:
        dx_dm = spacing
    dx_inf = dx_inf * dx_dm / dx_dm_inf


def falco__dm__resample_inf_func(inf_func, ppa_in, ppa_out):
    check.twoD_array(inf_func, 'inf_func', TypeError)
    check.real_positive_scalar(ppa_in, 'ppa_in', TypeError)
    check.real_positive_scalar(ppa_out, 'ppa_out', TypeError)


def falco__dm__update_gain_map(dm):
    if dm.fitType.lower() in ['linear', 'poly1']:
        pass
    elif dm.fitType.lower() in ['quadratic', 'poly2']:
        if not hasattr(dm, 'p1') or not hasattr(dm, 'p2') or (not hasattr(dm, 'p3')):
            raise ValueError()
    elif dm.fitType.lower() == 'fourier2':
        if not hasattr(dm, 'a0') or not hasattr(dm, 'a1') or (not hasattr(dm, 'a2')) or (not hasattr(dm, 'b1')) or (not hasattr(dm, 'b2')) or (not hasattr(dm, 'w')):
            raise ValueError()
    else:
        raise ValueError()


def falco__est__gen_pairwise_probe(mp, InormDes, phaseShift, starIndex, rotation):
    if mp.est.probe.xiOffset[starIndex] == 0 and mp.est.probe.etaOffset[starIndex] == 0:
        raise ValueError()
    if mp.est.probe.whichDM == 1:
        dm = mp.dm1
    elif mp.est.probe.whichDM == 2:
        dm = mp.dm2
    else:
        raise ValueError()
    Nact = dm.Nact
    NactPerBeam = mp.P2.D / dm.dm_spacing
    lamDIntoAct = Nact / NactPerBeam
    xiOffset = mp.est.probe.xiOffset[starIndex] * lamDIntoAct
    etaOffset = mp.est.probe.etaOffset[starIndex] * lamDIntoAct


def falco__est__gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
    check.real_positive_scalar(InormDes, 'InormDes', ValueError)
    check.real_scalar(psi, 'psi', TypeError)
    if badAxis.lower() not in ('x', 'y', 'm'):
        raise ValueError()
    if mp.est.probe.whichDM == 1:
        pass
    elif mp.est.probe.whichDM == 2:
        pass
    else:
        raise ValueError()
    if badAxis.lower() == 'y':
        pass
    elif badAxis.lower() == 'x':
        pass
    elif badAxis.lower() in ('m',):
        pass
    else:
        raise ValueError()


def falco__est__pairwise_probing(mp, ev, jacStruct=np.array([])):
    Itr = ev.Itr
    whichDM = mp.est.probe.whichDM
    if whichDM not in (1, 2):
        raise ValueError()
    if mp.est.probeSchedule.xOffsetVec is not None:
        check.oneD_array(mp.est.probeSchedule.xOffsetVec, 'mp.est.probeSchedule.xOffsetVec', TypeError)
        if len(mp.est.probeSchedule.xOffsetVec) < mp.Nitr:
            raise ValueError()
    if mp.est.probeSchedule.yOffsetVec is not None:
        check.oneD_array(mp.est.probeSchedule.yOffsetVec, 'mp.est.probeSchedule.yOffsetVec', TypeError)
        if len(mp.est.probeSchedule.yOffsetVec) < mp.Nitr:
            raise ValueError()
    if mp.est.probeSchedule.rotationVec is not None:
        check.oneD_array(mp.est.probeSchedule.rotationVec, 'mp.est.probeSchedule.rotationVec', TypeError)
        if len(mp.est.probeSchedule.rotationVec) < mp.Nitr:
            raise ValueError()
    if mp.est.probeSchedule.InormProbeVec is not None:
        check.oneD_array(mp.est.probeSchedule.InormProbeVec, 'mp.est.probeSchedule.InormProbeVec', TypeError)
        if len(mp.est.probeSchedule.InormProbeVec) < mp.Nitr:
            raise ValueError()
    if whichDM == 1:
        pass
    elif whichDM == 2:
        pass
    else:
        raise ValueError()
    Npairs = mp.est.probe.Npairs
    if mp.estimator in ('pairwise', 'pairwise-square', 'pwp-bp-square'):
        if mp.est.probe.axis.lower() == 'y':
            pass
        elif mp.est.probe.axis.lower() == 'x':
            pass
        elif mp.est.probe.axis.lower() in ('alt', 'xy', 'alternate'):
            pass
        elif mp.est.probe.axis.lower() in ('m', 'multi'):
            pass
        else:
            raise ValueError()
    for iStar in range(mp.compact.star.count):
        for iSubband in range(mp.Nsbp):
            for iProbe in range(2 * Npairs):
                if whichDM == 1:
                    pass
                elif whichDM == 2:
                    pass
                else:
                    raise ValueError()
            if mp.estimator in ('pairwise', 'pairwise-square', 'pairwise-rect', 'pwp-bp', 'pwp-bp-square') or (mp.estimator == 'pwp-kf' and ev.Itr < mp.est.ItrStartKF):
                pass
            else:
                raise NotImplementedError()


def falco__est__perfect(mp, ev):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    if hasattr(mp.full, 'pol_conds'):
        if set(mp.full.pol_conds) in ({-2, -1, 1, 2}, {10}):
            pass
        elif set(mp.full.pol_conds) in ({-1, 1}, {5}):
            pass
        elif set(mp.full.pol_conds) in ({-2, 2}, {6}):
            pass
        elif set(mp.full.pol_conds) == {0}:
            pass
        else:
            raise ValueError()


def falco__est__wrapper(mp, ev, jacStruct):
    if mp.estimator == 'perfect':
        pass
    elif mp.estimator in ['pairwise', 'pairwise-square', 'pairwise-rect', 'pwp-bp-square', 'pwp-bp', 'pwp-kf']:
        pass
    else:
        raise ValueError()


def falco__hlc__fpm_inf_cube_3x3(dm):
    dm.dx_dm = dm.dxi
    if not hasattr(dm, 'centering'):
        dm.centering = 'pixel'
    [dm.Xact, dm.Yact] = np.meshgrid(np.arange(0, dm.Nact) - dm.xcent_dm, np.arange(0, dm.Nact) - dm.ycent_dm)
    Nbox = dm.inf0.shape[0]
    dm.Nbox = Nbox
    if dm.centering != 'pixel':
        raise ValueError()
    dm.x_box0 = np.arange(-(Nbox - 1) / 2, (Nbox + 1) / 2) * dm.dx_dm
    [dm.Xbox0, dm.Ybox0] = np.meshgrid(dm.x_box0, dm.x_box0)


def falco__hlc__gen_fpm_cube_from_LUT(mp, modelType):
    if modelType.lower() == 'compact':
        pass
    elif modelType.lower() == 'full':
        pass
    else:
        raise ValueError()
    t_diel_bias = mp.t_diel_bias_nm * 1e-09
    DM8surf = falco.hlc.gen_fpm_surf_from_cube(mp.dm8, modelType)
    DM9surf = t_diel_bias + falco.hlc.gen_fpm_surf_from_cube(mp.dm9, modelType)
    if not DM8surf.shape == DM9surf.shape:
        raise ValueError()


def falco__hlc__gen_fpm_from_LUT(mp, si, wi, modelType):
    if modelType.lower() == 'compact':
        pass
    elif modelType.lower() == 'full':
        pass
    else:
        raise ValueError()
    t_diel_bias = mp.t_diel_bias_nm * 1e-09
    DM8surf = falco.hlc.gen_fpm_surf_from_cube(mp.dm8, modelType)
    DM9surf = t_diel_bias + falco.hlc.gen_fpm_surf_from_cube(mp.dm9, modelType)
    if not DM8surf.size == DM9surf.size:
        raise ValueError()


def falco__hlc__gen_fpm_surf_from_cube(dm, modelType):
    if modelType.lower() == 'compact':
        pass
    elif modelType.lower() == 'full':
        pass
    else:
        raise ValueError()


def falco__hlc__setup_fpm(mp):
    mp.dm8.centering = mp.centering
    mp.dm9.centering = mp.centering
    if hasattr(mp, 'flagDM9inf3x3'):
        if mp.centering == 'interpixel':
            raise ValueError()
    if not mp.F3.Rin == mp.F3.RinA:
        raise ValueError()


def falco__hlc__setup_fpm_cosine(mp):
    if mp.F3.full.res != mp.F3.compact.res:
        raise ValueError()
    falco.check.centering(mp.centering)
    mp.dm8.centering = mp.centering
    mp.dm9.centering = mp.centering
    mp.dm9.compact = copy.copy(mp.dm9)
    mp.dm8.compact = copy.copy(mp.dm8)
    if not mp.F3.Rin == mp.F3.RinA:
        raise ValueError()


def falco__imaging___get_subband_image_component(mp, si, ilist, inds_list):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    check.nonnegative_scalar_integer(si, 'si', TypeError)
    ipol = inds_list[ilist][1]
    mp = _with_polaxis(mp, mp.full.pol_conds[ipol])


def falco__imaging__add_noise_to_subband_image(mp, imageIn, iSubband):
    check.twoD_array(imageIn, 'imageIn', ValueError)
    check.nonnegative_scalar_integer(iSubband, 'iSubband', ValueError)


def falco__imaging__calc_psf_norm_factor(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()


def falco__imaging__calc_thput(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    if mp.thput_metric.lower() == 'hmi':
        pass
    elif mp.thput_metric.lower() in ('ee', 'e.e.'):
        pass
    else:
        raise ValueError()


def falco__imaging__get_expected_summed_image(mp, cvar, dDM):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()


def falco__imaging__get_sbp_image(mp, si):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    check.nonnegative_scalar_integer(si, 'si', TypeError)


def falco__imaging__get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    check.real_scalar(x_offset, 'x_offset', TypeError)
    check.real_scalar(y_offset, 'y_offset', TypeError)
    if not isinstance(isEvalMode, bool):
        raise TypeError()
    modvar.x_offset = x_offset
    modvar.y_offset = y_offset


def falco__imaging__get_sim_sbp_image(mp, si):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    check.nonnegative_scalar_integer(si, 'si', TypeError)


def falco__imaging__get_summed_image(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()


def falco__imaging__get_testbed_sbp_image(mp, si):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    check.nonnegative_scalar_integer(si, 'si', TypeError)
    raise NotImplementedError()


def falco__mask___init_proper(Dmask, dx, centering):
    check.centering(centering)


def falco__mask__falco_gen_DM_stop(dx, diamMask, centering):
    check.real_positive_scalar(dx, 'dx', TypeError)
    check.real_positive_scalar(diamMask, 'Dmask', TypeError)
    check.centering(centering)


def falco__mask__falco_gen_SW_mask(inputs):
    check.dictionary(inputs, 'inputs', TypeError)
    whichSide = inputs['whichSide']
    centering = inputs.get('centering', 'pixel')
    check.centering(centering)
    darkHoleShape = inputs.get('shape', 'circle').lower()
    if whichSide in {'r', 'right', 'lr', 'rl', 'leftright', 'rightleft', 'both'}:
        pass
    elif whichSide in {'l', 'left'}:
        pass
    elif whichSide in {'t', 'top', 'u', 'up', 'tb', 'bt', 'ud', 'du', 'topbottom', 'bottomtop', 'updown', 'downup'}:
        pass
    elif whichSide in {'b', 'bottom', 'd', 'down'}:
        pass
    else:
        raise ValueError()
    if darkHoleShape in {'circle', 'annulus'}:
        pass
    elif darkHoleShape in {'square'}:
        pass
    elif darkHoleShape in {'rect', 'rectangle'}:
        pass
    elif darkHoleShape in {'d'}:
        pass
    else:
        raise ValueError()


def falco__mask__falco_gen_ellipse(inputs):
    check.dictionary(inputs, 'inputs', TypeError)
    centering = inputs['centering'] if 'centering' in inputs else 'pixel'
    check.centering(centering)


def falco__mask__falco_gen_pupil_LUVOIR_A_final(inputs):
    check.dictionary(inputs, 'inputs', TypeError)
    centering = inputs.get('centering', 'pixel')
    check.centering(centering)
    flagLyot = inputs.get('flagLyot', False)
    if flagLyot:
        if 'ID' not in inputs or 'OD' not in inputs:
            raise ValueError()


def falco__mask__falco_gen_pupil_LUVOIR_B(inputs, **kwargs):
    check.dictionary(inputs, 'inputs', TypeError)
    centering = inputs.get('centering', 'pixel')
    check.centering(centering)


def falco__mask__falco_gen_pupil_Roman_CGI_20200513(Nbeam, centering, changes={}):
    check.real_positive_scalar(Nbeam, 'Nbeam', TypeError)
    check.centering(centering)
    check.dictionary(changes, 'changes', TypeError)
    if 'flagLyot' not in changes:
        flagLyot = False
    else:
        flagLyot = changes['flagLyot']
    if flagLyot:
        if 'ID' in changes:
            pass
        else:
            raise ValueError()
        if 'OD' in changes:
            pass
        else:
            raise ValueError()
    if centering.lower() == 'pixel':
        pass
    elif centering.lower() == 'interpixel':
        pass
    else:
        raise ValueError()


def falco__mask__falco_gen_pupil_Simple(inputs):
    check.dictionary(inputs, 'inputs', TypeError)
    OD = inputs['OD']
    wStrut = inputs.get('wStrut', 0.0)
    ID = inputs.get('ID', 0.0)
    centering = inputs.get('centering', 'pixel')
    flagHG = inputs.get('flagHG', False)
    check.real_nonnegative_scalar(wStrut, 'wStrut', TypeError)
    check.centering(centering)
    if not isinstance(flagHG, bool):
        raise TypeError()
    if ID > OD:
        raise ValueError()


def falco__mask__falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
    check.real_positive_scalar(Nbeam, 'Nbeam', TypeError)
    check.centering(centering)
    check.dictionary(changes, 'changes', TypeError)
    changes = dict(changes)
    if centering.lower() not in ('pixel', 'odd', 'interpixel', 'even'):
        raise ValueError()


def falco__mask__falco_gen_vortex_mask(charge, N):
    check.real_scalar(charge, 'charge', TypeError)
    check.positive_scalar_integer(N, 'N', TypeError)


def falco__mask__gen_annular_fpm(inputs):
    check.dictionary(inputs, 'inputs', TypeError)
    centering = inputs.get('centering', 'pixel')
    check.centering(centering)


def falco__mask__gen_bowtie_fpm(inputs):
    check.dictionary(inputs, 'inputs', TypeError)
    centering = inputs.get('centering', 'pixel')
    check.centering(centering)


def falco__mask__gen_bowtie_lyot_stop(inputs):
    check.dictionary(inputs, 'inputs', TypeError)
    centering = inputs['centering'] if 'centering' in inputs.keys() else 'pixel'
    check.centering(centering)


def falco__mask__rotate_shift_downsample_pupil_mask(arrayIn, nBeamIn, nBeamOut, xOffset, yOffset, rotDeg):
    check.twoD_array(arrayIn, 'arrayIn', TypeError)
    check.real_positive_scalar(nBeamIn, 'nBeamIn', TypeError)
    check.real_positive_scalar(nBeamOut, 'nBeamOut', TypeError)
    check.real_scalar(xOffset, 'xOffset', TypeError)
    check.real_scalar(yOffset, 'yOffset', TypeError)
    check.real_scalar(rotDeg, 'rotDeg', TypeError)
    if nBeamIn <= nBeamOut:
        raise ValueError()
    elif arrayIn.shape[0] % 2 == 0:
        arrayIn = arrayIn[1:, 1:]


def falco__model__jacobians__lyot(mp, imode, idm, iact):
    if idm == 1:
        if iact in mp.dm1.dead:
            return
    if idm == 2:
        if iact in mp.dm2.dead:
            return
    if mp.coro.upper() in ('LC', 'APLC', 'FLC', 'SPLC'):
        pass
    elif mp.coro.upper() in ('HLC',):
        pass
    else:
        raise ValueError()
    if idm not in (1, 2):
        raise ValueError()


def falco__model__jacobians__no_fpm(mp, imode, idm, iact):
    if mp.P4.compact.Nbeam != mp.P1.compact.Nbeam:
        if not hasattr(mp.P4.compact, 'maskAtP1res'):
            raise ValueError()
    if idm not in (1, 2):
        raise ValueError()


def falco__model__jacobians__precomp(mp):
    for imode in range(mp.jac.Nmode):
        if mp.coro.upper() in ('VC', 'AVC', 'VORTEX'):
            if isinstance(mp.F3.VortexCharge, np.ndarray):
                pass
            elif isinstance(mp.F3.VortexCharge, int) or isinstance(mp.F3.VortexCharge, float):
                pass
            else:
                raise TypeError()


def falco__model__jacobians__vortex(mp, imode, idm, iact):
    if idm == 1:
        if iact in mp.dm1.dead:
            return
    if idm == 2:
        if iact in mp.dm2.dead:
            return
    if idm not in (1, 2):
        raise ValueError()


def falco__model__models___get_compact_hlc_fpm(mp, sbpIndex):
    if mp.layout.lower() == 'fourier':
        pass
    elif mp.layout.lower() in ('roman_phasec_proper', 'wfirst_phaseb_proper', 'fpm_scale', 'proper'):
        pass
    else:
        raise ValueError()


def falco__model__models___jac_middle_layer(mp, imode, idm, iact):
    if mp.layout.lower() in ('fourier', 'proper', 'fpm_scale'):
        if mp.coro.upper() in ('LC', 'APLC', 'HLC', 'FLC', 'SPLC'):
            pass
        elif mp.coro.upper() in ('VC', 'AVC', 'VORTEX'):
            pass
        else:
            raise ValueError()
    elif mp.layout.lower() in ('wfirst_phaseb_proper', 'roman_phasec_proper'):
        if mp.coro.upper() in ('HLC', 'SPC', 'SPLC'):
            pass
        else:
            raise ValueError()
    else:
        raise ValueError()


def falco__model__models__compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True, forRevGradModel=False):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    if mp.layout.lower() == 'fourier':
        pass
    elif mp.layout.lower() in ('roman_phasec_proper', 'wfirst_phaseb_proper', 'proper', 'fpm_scale'):
        pass
    else:
        raise ValueError()


def falco__model__models__compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False, useFPM=True, forRevGradModel=False, fpm=None):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    check.is_bool(flagEval, 'flagEval')
    check.is_bool(flagScaleFPM, 'flagScaleFPM')
    if normFac == 0:
        if mp.coro.upper() in ('VORTEX', 'VC', 'AVC'):
            useFPM = False
    if useFPM:
        if mp.coro.upper() in ('VORTEX', 'VC', 'AVC'):
            if isinstance(mp.F3.VortexCharge, np.ndarray):
                pass
            elif isinstance(mp.F3.VortexCharge, (int, float)):
                pass
            else:
                raise TypeError()
        elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
            pass
        elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
            pass
        else:
            raise ValueError()


def falco__model__models__compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm1post_list, Edm2pre_list, DM2surf_list):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    for imode in range(mp.jac.Nmode):
        if mp.coro.upper() in ('VORTEX', 'VC', 'AVC'):
            if isinstance(mp.F3.VortexCharge, np.ndarray):
                pass
            elif isinstance(mp.F3.VortexCharge, (int, float)):
                pass
            else:
                raise TypeError()
        elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
            pass
        elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
            pass
        else:
            raise ValueError()
    if mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel:
        pass
    else:
        raise ValueError()


def falco__model__models__full(mp, modvar, isNorm=True):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    if isNorm:
        if hasattr(modvar, 'sbpIndex') and hasattr(modvar, 'wpsbpIndex'):
            pass
        else:
            raise ValueError()
    if hasattr(modvar, 'wvl'):
        pass
    elif hasattr(modvar, 'sbpIndex'):
        pass
    else:
        raise ValueError()
    if mp.layout.lower() == 'fourier':
        pass
    elif mp.layout.lower() == 'fpm_scale':
        pass
    elif mp.layout.lower() == 'proper':
        pass
    elif mp.layout.lower() in ('wfirst_phaseb_proper', 'roman_phasec_proper'):
        pass
    else:
        raise ValueError()


def falco__model__models__full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False, fpm=None):
    check.is_bool(flagScaleFPM, 'flagScaleFPM')
    if mp.coro.upper() in ('LC', 'APLC'):
        pass
    elif mp.coro.upper() == 'HLC':
        pass
    elif mp.coro.upper() == 'SPLC' or mp.coro.upper() == 'FLC':
        pass
    elif mp.coro.upper() in ('VORTEX', 'VC'):
        if isinstance(mp.F3.VortexCharge, np.ndarray):
            pass
        elif isinstance(mp.F3.VortexCharge, (int, float)):
            pass
        else:
            raise TypeError()
    else:
        raise ValueError()


def falco__model__models__write_jac_slices(fn_mp, combo_list):
    mp = falco.model.models.load_pickle_file(fn_mp)
    for combo in combo_list:
        if mp.coro.upper() in ('LC', 'APLC', 'HLC', 'FLC', 'SPLC'):
            pass
        elif mp.coro.upper() in ('VC', 'AVC', 'VORTEX'):
            pass
        else:
            raise ValueError()


def falco__prop__fft2d(arrayIn):
    check.twoD_array(arrayIn, 'arrayIn', TypeError)


def falco__prop__gen_tukey_for_vortex(Nwindow, RHO, alpha):
    check.real_scalar(Nwindow, 'Nwindow', TypeError)
    check.real_scalar(alpha, 'alpha', TypeError)


def falco__prop__ifft2d(arrayIn):
    check.twoD_array(arrayIn, 'arrayIn', TypeError)


def falco__prop__mft_f2p(E_foc, fl, wavelength, dxi, deta, dx, N, centering='pixel'):
    if centering not in falco.prop._VALID_CENTERING:
        raise ValueError()
    check.twoD_array(E_foc, 'E_foc', TypeError)
    check.real_scalar(fl, 'fl', TypeError)
    check.real_positive_scalar(wavelength, 'wavelength', TypeError)
    check.real_positive_scalar(dxi, 'dxi', TypeError)
    check.real_positive_scalar(deta, 'deta', TypeError)
    check.real_positive_scalar(dx, 'dx', TypeError)
    check.positive_scalar_integer(N, 'N', TypeError)


def falco__prop__mft_p2f(E_pup, fl, wavelength, dx, dxi, Nxi, deta, Neta, centering='pixel'):
    if centering not in falco.prop._VALID_CENTERING:
        raise ValueError()
    check.twoD_array(E_pup, 'E_pup', TypeError)
    check.real_scalar(fl, 'fl', TypeError)
    check.real_positive_scalar(wavelength, 'wavelength', TypeError)
    check.real_positive_scalar(dx, 'dx', TypeError)
    check.real_positive_scalar(dxi, 'dxi', TypeError)
    check.positive_scalar_integer(Nxi, 'Nxi', TypeError)
    check.real_positive_scalar(deta, 'deta', TypeError)
    check.positive_scalar_integer(Neta, 'Neta', TypeError)
    M, N = E_pup.shape
    if M != N:
        raise ValueError()


def falco__prop__mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False):
    check.twoD_array(pupilPre, 'pupilPre', TypeError)
    check.scalar_integer(charge, 'charge', TypeError)
    check.real_positive_scalar(beamRadius, 'beamRadius', TypeError)
    check.real_positive_scalar(inVal, 'inVal', TypeError)
    check.real_positive_scalar(outVal, 'outVal', TypeError)


def falco__prop__ptp(E_in, full_width, wavelength, dz):
    check.twoD_array(E_in, 'E_in', TypeError)
    check.real_positive_scalar(full_width, 'full_width', TypeError)
    check.real_positive_scalar(wavelength, 'wavelength', TypeError)
    check.real_scalar(dz, 'dz', TypeError)
    if dz == 0:
        return
    M, N = E_in.shape
    if M != N:
        raise ValueError()


def falco__prop__relay(E_in, Nrelay, centering='pixel'):
    if centering not in falco.prop._VALID_CENTERING:
        raise ValueError()
    check.twoD_array(E_in, 'E_in', TypeError)
    check.scalar_integer(Nrelay, 'Nrelay', TypeError)


def falco__setup__falco_configure_dm1_and_dm2(mp):
    if hasattr(mp, 'dm1'):
        if mp.dm1.inf_sign[0] in ['-', 'n', 'm']:
            pass
        elif mp.dm1.inf_sign[0] in ['+', 'p']:
            pass
        else:
            raise ValueError()
    if hasattr(mp, 'dm2'):
        if mp.dm2.inf_sign[0] in ['-', 'n', 'm']:
            pass
        elif mp.dm2.inf_sign[0] in ['+', 'p']:
            pass
        else:
            raise ValueError()


def falco__setup__falco_set_jacobian_modal_weights(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    mp.jac.zerns = np.atleast_1d(mp.jac.zerns)
    if not np.any(mp.jac.zerns == 1):
        raise ValueError()
    elif np.size(mp.jac.zerns) != len(set(mp.jac.zerns)):
        raise ValueError()


def falco__setup__falco_set_spatial_weights(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()


def falco__setup__verify_key_values(mp):
    mp.allowedCenterings = frozenset(('pixel', 'interpixel'))
    mp.allowedCoronagraphTypes = frozenset(('VC', 'VORTEX', 'LC', 'APLC', 'FLC', 'SPLC', 'HLC'))
    mp.allowedLayouts = frozenset(('fourier', 'fpm_scale', 'proper', 'roman_phasec_proper', 'wfirst_phaseb_proper'))
    mp.allowedEstimators = frozenset(('perfect', 'pairwise', 'pairwise-square', 'pwp-bp-square', 'pairwise-rect', 'pwp-bp', 'pwp-kf'))
    mp.allowedControllers = frozenset(('gridsearchefc', 'plannedefc', 'ad-efc'))
    mp.centering = mp.centering.lower()
    if mp.centering not in mp.allowedCenterings:
        raise ValueError()
    mp.coro = mp.coro.upper()
    if mp.coro not in mp.allowedCoronagraphTypes:
        raise ValueError()
    mp.layout = mp.layout.lower()
    if mp.layout not in mp.allowedLayouts:
        raise ValueError()
    mp.estimator = mp.estimator.lower()
    if mp.estimator not in mp.allowedEstimators:
        raise ValueError()
    mp.controller = mp.controller.lower()
    if mp.controller not in mp.allowedControllers:
        raise ValueError()


def falco__thinfilm__calc_complex_occulter(substrate, metal, dielectric, lam, aoi, t_Ti, t_metal_map, t_diel_map, d0, pol, flagOPD=False):
    real_nonnegative_scalar(t_Ti, 't_Ti', TypeError)
    twoD_array(t_metal_map, 't_metal_map', TypeError)
    twoD_array(t_diel_map, 't_diel_map', TypeError)


def falco__thinfilm__calc_complex_trans_matrix(substrate, metal, dielectric, lam, aoi, t_Ti, t_metal_vec, t_diel_vec, d0, pol, flagOPD=False):
    real_positive_scalar(lam, 'lam', TypeError)
    real_nonnegative_scalar(aoi, 'theta', TypeError)
    real_nonnegative_scalar(t_Ti, 't_Ti', TypeError)
    oneD_array(t_metal_vec, 't_metal_vec', ValueError)
    oneD_array(t_diel_vec, 't_diel_vec', ValueError)
    scalar_integer(pol, 'pol', TypeError)
    if substrate.upper() in ('FS', 'FUSEDSILICA', 'FUSED_SILICA'):
        pass
    elif substrate.upper() in ('N-BK7', 'NBK7', 'BK7'):
        pass
    else:
        raise ValueError()
    lenDiel = len(t_diel_vec)
    if dielectric.lower() in ('pmgi',):
        pass
    elif dielectric.lower() in ('mgf2',):
        pass
    else:
        raise ValueError()
    lenMetal = len(t_metal_vec)
    if metal.lower() in ('nickel', 'ni'):
        pass
    else:
        raise ValueError()
    for jj in range(lenDiel):
        for ii in range(lenMetal):
            if pol == 2:
                pass
            elif pol == 0 or pol == 1:
                pass
            else:
                raise ValueError()


def falco__thinfilm__solver(n, d0, theta, lam, tetm=False):
    oneD_array(n, 'n', ValueError)
    oneD_array(d0, 'd0', ValueError)
    N = len(n)
    if not len(d0) == N - 2:
        raise ValueError()
    real_nonnegative_scalar(theta, 'theta', TypeError)
    real_positive_scalar(lam, 'lam', TypeError)
    if not type(tetm) == bool:
        raise TypeError()


def falco__util__azimuthal_grid(axis, xStretch=1.0, yStretch=1.0):
    check.oneD_array(axis, 'axis', TypeError)
    check.real_scalar(xStretch, 'xStretch', TypeError)
    check.real_scalar(yStretch, 'yStretch', TypeError)


def falco__util__bin_downsample(Ain, dsfac):
    check.twoD_array(Ain, 'Ain', ValueError)
    check.positive_scalar_integer(dsfac, 'dsfac', ValueError)
    ny0, nx0 = Ain.shape
    if nx0 % dsfac != 0 or ny0 % dsfac != 0:
        raise ValueError()


def falco__util__cart2pol(x, y):
    if type(x) == np.ndarray and type(y) == np.ndarray:
        if not x.shape == y.shape:
            raise ValueError()


def falco__util__ceil_even(x_in):
    check.real_scalar(x_in, 'x_in', TypeError)


def falco__util__ceil_odd(x_in):
    check.real_scalar(x_in, 'x_in', TypeError)


def falco__util__create_axis(N, step, centering='pixel'):
    check.positive_scalar_integer(N, 'N', TypeError)
    check.real_positive_scalar(step, 'step', TypeError)
    check.centering(centering)


def falco__util__nextpow2(N):
    check.real_scalar(N, 'N', TypeError)


def falco__util__offcenter_crop(arrayIn, centerRow, centerCol, nRowOut, nColOut):
    check.twoD_array(arrayIn, 'arrayIn', TypeError)
    check.real_scalar(centerRow, 'centerRow', TypeError)
    check.real_scalar(centerCol, 'centerCol', TypeError)
    check.positive_scalar_integer(nRowOut, 'nRowOut', TypeError)
    check.positive_scalar_integer(nColOut, 'nColOut', TypeError)
    [nRowIn, nColIn] = arrayIn.shape
    centerRow = int(np.round(centerRow))
    centerCol = int(np.round(centerCol))
    rowPadPre = 0
    rowPadPost = 0
    if np.ceil(-nRowOut / 2.0) + centerRow < 0:
        rowPadPre = np.abs(np.ceil(-nRowOut / 2.0) + centerRow)
    if np.ceil(nRowOut / 2.0) + centerRow > nRowIn - 1:
        rowPadPost = np.ceil(nRowOut / 2.0) + centerRow - nRowIn
    y_pad = int(np.max((rowPadPre, rowPadPost)))
    colPadPre = 0
    colPadPost = 0
    if np.ceil(-nColOut / 2.0) + centerCol < 0:
        colPadPre = np.abs(np.ceil(-nColOut / 2.0) + centerCol)
    if np.ceil(nColOut / 2.0) + centerCol > nColIn - 1:
        colPadPost = np.ceil(nColOut / 2.0) + centerCol - nColIn
    x_pad = int(np.max((colPadPre, colPadPost)))
    centerCol += x_pad
    centerRow += y_pad


def falco__util__pad_crop(arrayIn, outsize, extrapval=0):
    check.twoD_array(arrayIn, 'arrayIn', TypeError)
    check.real_scalar(extrapval, 'extrapval', TypeError)


def falco__util__pad_to_even_square(arrayIn):
    check.twoD_array(arrayIn, 'arrayIn', ValueError)


def falco__util__radial_grid(axis, xStretch=1.0, yStretch=1.0):
    check.oneD_array(axis, 'axis', TypeError)
    check.real_scalar(xStretch, 'xStretch', TypeError)
    check.real_scalar(yStretch, 'yStretch', TypeError)


def falco__util__radial_grid_squared(axis, xStretch=1.0, yStretch=1.0):
    check.oneD_array(axis, 'axis', TypeError)
    check.real_scalar(xStretch, 'xStretch', TypeError)
    check.real_scalar(yStretch, 'yStretch', TypeError)


def falco__wfsc__loop(mp, out):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()


def falco__zern__gen_norm_zern_maps(Nbeam, centering, indsZnoll):
    if centering not in falco.zern._VALID_CENTERING:
        raise ValueError()
    bm.centering = centering


def falco__zern__propcustom_zernikes(a, zernike_num, zernike_val, eps=0.0, **kwargs):
    zernike_num = np.asarray(zernike_num)
    max_z = zernike_num.max()
    if eps != 0.0 and max_z > 22:
        raise ValueError()
    if 'CENTERING' in kwargs:
        if kwargs['CENTERING'] not in falco.zern._VALID_CENTERING:
            raise ValueError()


def falco__dm__gen_poke_cube(dm, mp, dx_dm, **kwargs):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    check.real_positive_scalar(dx_dm, 'dx_dm', TypeError)
    if 'NOCUBE' in kwargs and kwargs['NOCUBE']:
        flagGenCube = False
    else:
        flagGenCube = True
    if not hasattr(dm, 'flag_hex_array'):
        dm.flag_hex_array = False
    dm.dx_dm = dx_dm
    if dm.flag_hex_array:
        raise ValueError()
    else:
        [dm.Xact, dm.Yact] = np.meshgrid(np.arange(dm.Nact) - dm.xc, np.arange(dm.Nact) - dm.yc)
    if hasattr(dm, 'orientation'):
        if dm.orientation.lower() == 'rot0':
            pass
        elif dm.orientation.lower() == 'rot90':
            pass
        elif dm.orientation.lower() == 'rot180':
            pass
        elif dm.orientation.lower() == 'rot270':
            pass
        elif dm.orientation.lower() == 'flipxrot0':
            pass
        elif dm.orientation.lower() == 'flipxrot90':
            pass
        elif dm.orientation.lower() == 'flipxrot180':
            pass
        elif dm.orientation.lower() == 'flipxrot270':
            pass
        else:
            raise ValueError()
    N0 = dm.inf0.shape[0]
    Npad = falco.util.ceil_odd(np.sqrt(2.0) * N0)
    inf0pad = np.zeros((Npad, Npad))
    ydim = inf0pad.shape[0]
    xdim = inf0pad.shape[1]
    xd2 = np.fix(xdim / 2.0) + 1
    yd2 = np.fix(ydim / 2.0) + 1
    cx = np.arange(xdim) + 1.0 - xd2
    cy = np.arange(ydim) + 1.0 - yd2
    [Xs0, Ys0] = np.meshgrid(cx, cy)
    xsNewVec = np.zeros(xdim * xdim)
    ysNewVec = np.zeros(ydim * ydim)
    dm.infMaster = griddata((xsNewVec, ysNewVec), inf0pad.reshape(Npad * Npad), (Xs0, Ys0), method='cubic', fill_value=0.0)
    infSum = np.sum(dm.infMaster)
    infDiff = 0.0
    counter = 0
    while abs(infDiff) <= 1e-07:
        counter = counter + 2
        infDiff = infSum - np.sum(abs(dm.infMaster[int(counter / 2):int(-counter / 2), int(counter / 2):int(-counter / 2)]))
    counter = counter - 2
    Ninf0pad = dm.infMaster.shape[0] - counter
    if counter == 0:
        infMaster2 = dm.infMaster.copy()
    else:
        infMaster2 = dm.infMaster[int(counter / 2):int(-counter / 2), int(counter / 2):int(-counter / 2)].copy()
        dm.infMaster = infMaster2
    Npad = Ninf0pad
    Nbox = falco.util.ceil_even(Ninf0pad * dm.dx_inf0 / dx_dm)
    dm.Nbox = Nbox
    if flagGenCube:
        dm.x_box0 = np.linspace(-(Nbox - 1) / 2.0, (Nbox - 1) / 2.0, Nbox) * dx_dm
        [dm.Xbox0, dm.Ybox0] = np.meshgrid(dm.x_box0, dm.x_box0)


def falco__hlc__gen_fpm_poke_cube(dm, mp, dx_dm, **kwargs):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError()
    real_positive_scalar(dx_dm, 'dx_dm', TypeError)
    if 'NOCUBE' in kwargs and kwargs['NOCUBE']:
        flagGenCube = False
    else:
        flagGenCube = True
    if not hasattr(dm, 'flag_hex_array'):
        dm.flag_hex_array = False
    dm.dx_dm = dx_dm
    if dm.flag_hex_array:
        raise ValueError()
    else:
        [dm.Xact, dm.Yact] = np.meshgrid(np.arange(dm.Nact) - dm.xc, np.arange(dm.Nact) - dm.yc)
    N0 = dm.inf0.shape[0]
    Npad = falco.util.ceil_odd(np.sqrt(2.0) * N0)
    inf0pad = np.zeros((Npad, Npad))
    ydim = inf0pad.shape[0]
    xdim = inf0pad.shape[1]
    xd2 = np.fix(xdim / 2.0) + 1
    yd2 = np.fix(ydim / 2.0) + 1
    cx = np.arange(xdim) + 1.0 - xd2
    cy = np.arange(ydim) + 1.0 - yd2
    [Xs0, Ys0] = np.meshgrid(cx, cy)
    xsNewVec = np.zeros(xdim * xdim)
    ysNewVec = np.zeros(ydim * ydim)
    dm.infMaster = griddata((xsNewVec, ysNewVec), inf0pad.reshape(Npad * Npad), (Xs0, Ys0), method='cubic', fill_value=0.0)
    infSum = np.sum(dm.infMaster)
    infDiff = 0.0
    counter = 0
    while abs(infDiff) <= 1e-07:
        counter = counter + 2
        infDiff = infSum - np.sum(abs(dm.infMaster[int(counter / 2):int(-counter / 2), int(counter / 2):int(-counter / 2)]))
    counter = counter - 2
    Ninf0pad = dm.infMaster.shape[0] - counter
    if counter == 0:
        infMaster2 = dm.infMaster.copy()
    else:
        infMaster2 = dm.infMaster[int(counter / 2):int(-counter / 2), int(counter / 2):int(-counter / 2)].copy()
        dm.infMaster = infMaster2
    Npad = Ninf0pad
    Nbox = falco.util.ceil_even(Ninf0pad * dm.dx_inf0 / dx_dm)
    dm.Nbox = Nbox
    if flagGenCube:
        dm.x_box0 = np.linspace(-(Nbox - 1) / 2.0, (Nbox - 1) / 2.0, Nbox) * dx_dm
        [dm.Xbox0, dm.Ybox0] = np.meshgrid(dm.x_box0, dm.x_box0)
