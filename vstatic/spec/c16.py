"""Reference definitions of the compact and full optical models, the Jacobian and the reverse gradient (C16).

Each is written from the physics of the layout: which element acts on the field, in which plane, in which order; the four models share the helpers below.
"""
import numpy as np
from numpy.fft import fft2, fftshift

import falco
import falco.prop as fp
from falco import check
from falco.util import pad_crop

def _relays(mp):
    return 1 if mp.flagRotation else 0


def _tilt(x, y, grid, mp, wvl):
    """Field of a source at (x, y) in lambda0/D."""
    return np.exp(-2j*np.pi*(x*grid.XsDL + y*grid.YsDL)*mp.lambda0/wvl)


def _charge(mp, wvl):
    c = mp.F3.VortexCharge
    if isinstance(c, np.ndarray):
        return c if c.size == 1 else np.interp(wvl, mp.F3.VortexCharge_lambdas, c)
    if isinstance(c, (int, float)):
        return c
    raise TypeError('VortexCharge')


def _surface(mp, dm, number, dx, N):
    return falco.dm.gen_surf_from_act(dm, dx, N) if any(mp.dm_ind == number) else np.zeros((N, N))


def _wfe(mp, number, wfe_of, wvl, N):
    if mp.flagDMwfe and any(mp.dm_ind == number):
        return np.exp(2j*np.pi/wvl*pad_crop(wfe_of.wfe, N, extrapval=0))
    return np.ones((N, N))


def _stop(flag, holder, N):
    return pad_crop(holder.mask, N) if flag else np.ones((N, N))


def _scales_fpm(mp):
    return mp.coro.upper() == 'HLC' and mp.layout.lower() in ('roman_phasec_proper', 'wfirst_phaseb_proper', 'proper', 'fpm_scale')


def _is_vortex(mp):
    return mp.coro.upper() in ('VORTEX', 'VC', 'AVC')


# ---------------------------------------------------------------- compact model

def falco__model__models___get_compact_hlc_fpm(mp, sbpIndex):
    layout = mp.layout.lower()
    if layout == 'fourier' and not hasattr(mp.compact, 'fpmCube'):
        return falco.hlc.gen_fpm_from_LUT(mp, sbpIndex, -1, 'compact')
    if layout in ('fourier', 'roman_phasec_proper', 'wfirst_phaseb_proper', 'fpm_scale', 'proper'):
        return mp.compact.fpmCube[:, :, sbpIndex]
    raise ValueError('layout')


def _compact_input(mp, sbpIndex, starIndex, zernIndex, wvl):
    star = mp.compact.star
    E = np.sqrt(star.weights[starIndex]) * _tilt(star.xiOffsetVec[starIndex], star.etaOffsetVec[starIndex], mp.P2.compact, mp, wvl)
    E = E * mp.P1.compact.E[:, :, sbpIndex]
    return E


def _zernike(E, mp, N, Nbeam, zernIndex, wvl):
    if zernIndex == 1:
        return E
    zern = pad_crop(np.squeeze(falco.zern.gen_norm_zern_maps(Nbeam, mp.centering, zernIndex)), N)
    return E * zern * (2j*np.pi/wvl) * mp.jac.Zcoef[mp.jac.zerns == zernIndex]


def falco__model__models__compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True, forRevGradModel=False):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    if not isNorm:
        normFac = 0.
    elif isEvalMode:
        normFac = mp.Fend.eval.I00[modvar.sbpIndex]
    else:
        normFac = mp.Fend.compact.I00[modvar.sbpIndex]
    wvl = modvar.wvl if hasattr(modvar, 'wvl') else mp.sbp_centers[modvar.sbpIndex]

    E = _compact_input(mp, modvar.sbpIndex, modvar.starIndex, 1, wvl)
    if modvar.whichSource.lower() == 'offaxis':
        E = E * _tilt(modvar.x_offset, modvar.y_offset, mp.P2.compact, mp, wvl)
    if normFac == 0:
        E = E * _tilt(mp.source_x_offset_norm, mp.source_y_offset_norm, mp.P2.compact, mp, wvl)
    E = _zernike(E, mp, mp.P1.compact.Narr, mp.P1.compact.Nbeam, getattr(modvar, 'zernIndex', 1), wvl)

    fpm = None
    if mp.coro.upper() == 'HLC':
        fpm = falco.model.models._get_compact_hlc_fpm(mp, modvar.sbpIndex)
    if mp.layout.lower() not in ('fourier', 'roman_phasec_proper', 'wfirst_phaseb_proper', 'proper', 'fpm_scale'):
        raise ValueError('layout')
    if _scales_fpm(mp):
        return falco.model.models.compact_general(mp, wvl, E, normFac, isEvalMode, flagScaleFPM=True, useFPM=useFPM, forRevGradModel=forRevGradModel, fpm=fpm)
    return falco.model.models.compact_general(mp, wvl, E, normFac, isEvalMode, useFPM=useFPM, forRevGradModel=forRevGradModel, fpm=fpm)


def falco__model__models__compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False, useFPM=True, forRevGradModel=False, fpm=None):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    check.is_bool(flagEval, 'flagEval')
    check.is_bool(flagScaleFPM, 'flagScaleFPM')
    coro = mp.coro.upper()
    if fpm is None and coro in ('LC', 'APLC', 'HLC', 'SPLC', 'FLC'):
        fpm = mp.F3.compact.mask
    outer = fpm[0, 0] if coro == 'HLC' else 1.
    N = int(mp.compact.NdmPad)
    width = mp.P2.compact.dx*N
    rot = _relays(mp)
    scale = wvl/mp.lambda0 if flagScaleFPM else 1.
    if flagEval:
        grid = mp.Fend.eval
    else:
        grid = mp.Fend

    surf1 = _surface(mp, mp.dm1, 1, mp.dm1.compact.dx, N)
    surf2 = _surface(mp, mp.dm2, 2, mp.dm2.compact.dx, N)

    # entrance pupil to DM1
    E = fp.relay(pad_crop(mp.P1.compact.mask, N) * pad_crop(Ein, N), rot*mp.Nrelay1to2, mp.centering)
    if mp.d_P2_dm1 != 0:
        E = fp.ptp(E, width, wvl, mp.d_P2_dm1)
    post1 = E * _stop(mp.flagDM1stop, mp.dm1.compact, N) * _wfe(mp, 1, mp.dm1.compact, wvl, N) * np.exp(4j*np.pi*surf1/wvl)
    # DM1 to DM2
    pre2 = _stop(mp.flagDM2stop, mp.dm2.compact, N) * fp.ptp(post1, width, wvl, mp.d_dm1_dm2)
    E = pre2 * _wfe(mp, 2, mp.dm2.compact, wvl, N) * np.exp(4j*np.pi*surf2/wvl)
    # back to P2 and on to P3
    if mp.d_P2_dm1 + mp.d_dm1_dm2 != 0:
        E = fp.ptp(E, width, wvl, -(mp.d_P2_dm1 + mp.d_dm1_dm2))
    E = fp.relay(E, rot*mp.Nrelay2to3, mp.centering)
    if mp.flagApod:
        E = mp.P3.compact.mask * pad_crop(E, mp.P3.compact.Narr)

    if normFac == 0 and _is_vortex(mp):
        useFPM = False
    if not useFPM:
        E = outer * fp.relay(E, rot*mp.Nrelay3to4, mp.centering)
        if mp.P4.compact.Nbeam != mp.P1.compact.Nbeam:
            E = pad_crop(E, falco.util.ceil_even(1.2*mp.P1.compact.Nbeam))
            E = (falco.mask.rotate_shift_downsample_pupil_mask(np.real(E), mp.P1.compact.Nbeam, mp.P4.compact.Nbeam, 0, 0, 0)
                 + 1j*falco.mask.rotate_shift_downsample_pupil_mask(np.imag(E), mp.P1.compact.Nbeam, mp.P4.compact.Nbeam, 0, 0, 0))
            E = E * (mp.P1.compact.Nbeam/mp.P4.compact.Nbeam)
        E = pad_crop(E, mp.P4.compact.Narr)
    elif _is_vortex(mp):
        E = fp.mft_p2v2p(E, _charge(mp, wvl), mp.P1.compact.Nbeam/2., 0.3, 5)
        E = pad_crop(fp.relay(E, rot*mp.Nrelay3to4 - 1, mp.centering), mp.P4.compact.Narr)
    elif coro in ('FLC', 'SPLC') or coro in ('LC', 'APLC', 'HLC'):
        dxi = scale*mp.F3.compact.dxi
        deta = scale*mp.F3.compact.deta
        focus = fp.mft_p2f(E, mp.fl, wvl, mp.P2.compact.dx, dxi, mp.F3.compact.Nxi, deta, mp.F3.compact.Neta, mp.centering)
        if coro in ('LC', 'APLC', 'HLC'):
            direct = outer * pad_crop(fp.relay(E, rot*mp.Nrelay3to4, mp.centering), mp.P4.compact.Narr)
            focus = (outer - fpm)*focus
        else:
            focus = fpm*focus
        masked = fp.relay(fp.mft_f2p(focus, mp.fl, wvl, dxi, deta, mp.P4.compact.dx, mp.P4.compact.Narr, mp.centering), rot*mp.Nrelay3to4 - 1, mp.centering)
        if coro in ('LC', 'APLC', 'HLC'):
            E = direct - masked
        else:
            E = masked
    else:
        raise ValueError('coro')

    E = fp.relay(mp.P4.compact.croppedMask * E, rot*mp.NrelayFend, mp.centering)
    E = fp.mft_p2f(E, mp.fl, wvl, mp.P4.compact.dx, grid.dxi, grid.Nxi, grid.deta, grid.Neta, mp.centering)
    if normFac != 0:
        E = E/np.sqrt(normFac)
    if forRevGradModel:
        return E, post1, pre2, surf1, surf2
    return E


# ---------------------------------------------------------------- full model

def falco__model__models__full(mp, modvar, isNorm=True):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    if isNorm:
        if not (hasattr(modvar, 'sbpIndex') and hasattr(modvar, 'wpsbpIndex')):
            raise ValueError('modvar')
        normFac = mp.Fend.full.I00[modvar.sbpIndex, modvar.wpsbpIndex]
    else:
        normFac = 0
    if hasattr(modvar, 'wvl'):
        wvl = modvar.wvl
    elif hasattr(modvar, 'sbpIndex'):
        wvl = mp.full.lambdasMat[modvar.sbpIndex, modvar.wpsbpIndex]
    else:
        raise ValueError('wavelength')

    i = modvar.starIndex
    E = np.sqrt(mp.star.weights[i]) * _tilt(mp.star.xiOffsetVec[i], mp.star.etaOffsetVec[i], mp.P2.full, mp, wvl)
    E = E * np.squeeze(mp.P1.full.E[:, :, modvar.wpsbpIndex, modvar.sbpIndex])
    if modvar.whichSource.lower() == 'offaxis':
        E = E * _tilt(modvar.x_offset, modvar.y_offset, mp.P2.full, mp, wvl)
    if normFac == 0:
        E = E * _tilt(mp.source_x_offset_norm, mp.source_y_offset_norm, mp.P2.full, mp, wvl)
    E = _zernike(E, mp, mp.P1.full.Narr, mp.P1.full.Nbeam, modvar.zernIndex, wvl)

    layout = mp.layout.lower()
    # the stored masks of the full model are those of the distinct wavelengths, in order
    ilam = modvar.sbpIndex*(mp.Nwpsbp-1) + modvar.wpsbpIndex if mp.Nwpsbp > 1 else modvar.sbpIndex
    fpm = None
    if mp.coro.upper() == 'HLC':
        if layout == 'fpm_scale':
            fpm = mp.full.fpmCube[:, :, ilam]
        elif layout in ('fourier', 'proper'):
            if hasattr(mp.full, 'fpmCube'):
                fpm = mp.full.fpmCube[:, :, ilam]
            else:
                fpm = falco.hlc.gen_fpm_from_LUT(mp, modvar.sbpIndex, modvar.wpsbpIndex, 'full')

    if layout == 'fourier':
        return falco.model.models.full_Fourier(mp, wvl, E, normFac, fpm=fpm)
    if layout == 'fpm_scale':
        return falco.model.models.full_Fourier(mp, wvl, E, normFac, flagScaleFPM=True, fpm=fpm)
    if layout == 'proper':
        return _prescription(mp, wvl, normFac)
    if layout in ('wfirst_phaseb_proper', 'roman_phasec_proper'):
        return _roman_prescription(mp, wvl, normFac, layout)
    raise ValueError('layout')


def _prescription(mp, wvl, normFac):
    import copy
    opt = copy.copy(vars(mp.full))
    if any(mp.dm_ind == 1):
        opt['use_dm1'] = True
        opt['dm1'] = mp.full.dm1FlatMap + mp.dm1.VtoH*mp.dm1.V
    if any(mp.dm_ind == 2):
        opt['use_dm2'] = True
        opt['dm2'] = mp.full.dm2FlatMap + mp.dm2.VtoH*mp.dm2.V
    if normFac == 0:
        if _is_vortex(mp):
            opt['xoffset'] = -mp.source_x_offset_norm
            opt['yoffset'] = -mp.source_y_offset_norm
            opt['use_fpm'] = False
            opt['xoffset'] = 0
            opt['yoffset'] = 0
        else:
            opt['xoffset'] = -mp.source_x_offset_norm
            opt['yoffset'] = -mp.source_y_offset_norm
    field, _ = falco.proper.prop_run(mp.full.prescription, wvl*1e6, mp.P1.full.Narr, QUIET=True, PASSVALUE=opt)
    if normFac != 0:
        field = field/np.sqrt(normFac)
    return field


def _roman_prescription(mp, wvl, normFac, layout):
    import copy
    opt = copy.copy(vars(mp.full))
    opt['use_dm1'] = True
    opt['use_dm2'] = True
    opt['dm1_m'] = mp.full.dm1.flatmap + mp.dm1.VtoH*mp.dm1.V
    opt['dm2_m'] = mp.full.dm2.flatmap + mp.dm2.VtoH*mp.dm2.V
    if normFac == 0:
        opt['source_x_offset'] = -mp.source_x_offset_norm
        opt['source_y_offset'] = -mp.source_y_offset_norm
    name = 'wfirst_phaseb' if layout == 'wfirst_phaseb_proper' else 'roman_phasec'
    field, _ = falco.proper.prop_run(name, wvl*1e6, int(2**falco.util.nextpow2(mp.Fend.Nxi)), QUIET=True, PASSVALUE=opt)
    field = pad_crop(field, (mp.Fend.Nxi, mp.Fend.Nxi))
    if normFac != 0:
        field = field/np.sqrt(normFac)
    return field


def falco__model__models__full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False, fpm=None):
    check.is_bool(flagScaleFPM, 'flagScaleFPM')
    coro = mp.coro.upper()
    if fpm is None and coro in ('LC', 'APLC', 'HLC', 'SPLC', 'FLC'):
        fpm = mp.F3.full.mask
    N = int(mp.full.NdmPad)
    width = mp.P2.full.dx*N
    rot = _relays(mp)
    scale = wvl/mp.lambda0 if flagScaleFPM else 1.0
    surf1 = _surface(mp, mp.dm1, 1, mp.dm1.dx, N)
    surf2 = _surface(mp, mp.dm2, 2, mp.dm2.dx, N)

    E = fp.relay(pad_crop(mp.P1.full.mask, N) * pad_crop(Ein, N), rot*mp.Nrelay1to2, mp.centering)
    if mp.d_P2_dm1 != 0:
        E = fp.ptp(E, width, wvl, mp.d_P2_dm1)
    E = E * _wfe(mp, 1, mp.dm1, wvl, N) * _stop(mp.flagDM1stop, mp.dm1.full, N) * np.exp(4j*np.pi*surf1/wvl)
    E = fp.ptp(E, width, wvl, mp.d_dm1_dm2)
    E = E * _wfe(mp, 2, mp.dm2, wvl, N) * _stop(mp.flagDM2stop, mp.dm2.full, N) * np.exp(4j*np.pi*surf2/wvl)
    if mp.d_P2_dm1 + mp.d_dm1_dm2 != 0:
        E = fp.ptp(E, width, wvl, -(mp.d_P2_dm1 + mp.d_dm1_dm2))
    E = fp.relay(E, rot*mp.Nrelay2to3, mp.centering)
    if mp.flagApod:
        E = mp.P3.full.mask * pad_crop(E, mp.P3.full.Narr)
    P3 = E

    if coro in ('VORTEX', 'VC'):
        E = pad_crop(fp.mft_p2v2p(E, _charge(mp, wvl), mp.P1.full.Nbeam/2., 0.3, 5), mp.P4.full.Narr)
        E = fp.relay(E, rot*mp.Nrelay3to4 - 1, mp.centering)
    elif coro in ('LC', 'APLC', 'HLC') or coro in ('SPLC', 'FLC'):
        dxi = scale*mp.F3.full.dxi
        deta = scale*mp.F3.full.deta
        if coro == 'HLC':
            if hasattr(mp.full, 'fpmCube'):
                outer = fpm[0, 0]
            else:
                outer, _ = falco.thinfilm.calc_complex_trans_matrix(mp.F3.substrate, mp.F3.metal, mp.F3.dielectric, wvl, mp.aoi, 0, [0],
                                                                   [1e-9*mp.t_diel_bias_nm], wvl*mp.F3.d0fac, 2)
        else:
            outer = 1.
        focus = fp.mft_p2f(E, mp.fl, wvl, mp.P2.full.dx, dxi, mp.F3.full.Nxi, deta, mp.F3.full.Neta, mp.centering)
        if coro in ('LC', 'APLC', 'HLC'):
            direct = outer * pad_crop(fp.relay(E, rot*mp.Nrelay3to4, mp.centering), mp.P4.full.Narr)
            focus = (outer - fpm)*focus
        else:
            focus = fpm*focus
        masked = fp.relay(fp.mft_f2p(focus, mp.fl, wvl, dxi, deta, mp.P4.full.dx, mp.P4.full.Narr, mp.centering), rot*mp.Nrelay3to4 - 1, mp.centering)
        if coro in ('LC', 'APLC', 'HLC'):
            E = direct - masked
        else:
            E = masked
    else:
        raise ValueError('coro')
    if normFac == 0 and _is_vortex(mp):
        E = pad_crop(fp.relay(P3, rot*mp.Nrelay3to4, mp.centering), mp.P4.full.Narr)

    E = fp.relay(mp.P4.full.croppedMask * E, rot*mp.NrelayFend, mp.centering)
    E = fp.mft_p2f(E, mp.fl, wvl, mp.P4.full.dx, mp.Fend.dxi, mp.Fend.Nxi, mp.Fend.deta, mp.Fend.Neta, mp.centering)
    if normFac != 0:
        E = E/np.sqrt(normFac)
    return E


# ---------------------------------------------------------------- Jacobian

def _response(mp, dm, gain, number, imode, iact, wvl):
    """Field at pupil P2, in the box around one actuator, that a unit poke of that actuator adds."""
    box = int(dm.compact.NboxAS)
    corner = dm.compact.xy_box_lowerLeft - ((dm.compact.NboxAS if number == 1 else box) - dm.compact.Nbox)/2
    cols = np.arange(corner[0, iact], corner[0, iact] + box, dtype=int)
    rows = np.arange(corner[1, iact], corner[1, iact] + box, dtype=int)
    where = np.ix_(rows, cols)
    N = int(mp.compact.NdmPad)
    width = mp.P2.compact.dx*box
    back = -(mp.d_dm1_dm2 + mp.d_P2_dm1)
    shape = np.squeeze(dm.compact.inf_datacube[:, :, iact])
    if number == 1:
        M = dm.compact.NdmPad
        E = 4j*np.pi/wvl * pad_crop(gain*shape, box) * pad_crop(mp.jac.Edm1_list[imode], M)[where]
        E = fp.ptp(E, width, wvl, mp.d_dm1_dm2)
        surf2 = pad_crop(pad_crop(mp.dm2.compact.surfM, N), M) if any(mp.dm_ind == 2) else np.zeros((M, M))
        stop2 = pad_crop(pad_crop(mp.dm2.compact.mask, N), M) if mp.flagDM2stop else np.ones((M, M))
        wfe2 = pad_crop(_wfe(mp, 2, mp.dm2.compact, wvl, N), M)
        E = E * wfe2[where] * stop2[where] * np.exp(4j*np.pi/wvl*surf2[where])
    else:
        E = 4j*np.pi/wvl * gain * pad_crop(shape, box) * mp.jac.Edm2_list[imode][where]
    return fp.ptp(E, width, wvl, back), where, rows, cols


def _apodizer(mp, dm):
    N = int(mp.compact.NdmPad)
    apod = fp.relay(pad_crop(mp.P3.compact.mask, N), _relays(mp)*mp.Nrelay2to3, mp.centering) if mp.flagApod else np.ones((N, N))
    return pad_crop(apod, dm.compact.NdmPad)


def _column(mp, E4, sbpIndex, wvl):
    """Dark-hole pixels of the normalised image of a field at the Lyot plane."""
    rot = _relays(mp)
    E = fp.relay(E4, rot*mp.NrelayFend, mp.centering)
    E = fp.mft_p2f(E, mp.fl, wvl, mp.P4.compact.dx, mp.Fend.dxi, mp.Fend.Nxi, mp.Fend.deta, mp.Fend.Neta, mp.centering)
    return E[mp.Fend.corr.maskBool]/np.sqrt(mp.Fend.compact.I00[sbpIndex])


def _peak_normalised(mp, column, imode, idm, iact):
    if mp.jac.minimizeNI:
        peak = mp.jac.Epeak_list[imode]
        dpeak = falco.model.jacobians.no_fpm(mp, imode, idm, iact)
        return column/peak - mp.jac.Eocculted_list[imode][mp.Fend.corr.maskBool]/(peak*peak)*dpeak
    return column


def _dead_column(mp):
    return np.zeros_like(mp.Fend.corr.maskBool, dtype=complex)[mp.Fend.corr.maskBool]


def _lyot_plane(mp, dm, number, imode, iact, sbpIndex, wvl):
    coro = mp.coro.upper()
    rot = _relays(mp)
    if coro in ('LC', 'APLC', 'FLC', 'SPLC'):
        fpm = mp.F3.compact.mask
        outer = 1.
    elif coro == 'HLC':
        fpm = np.squeeze(mp.compact.fpmCube[:, :, sbpIndex])
        outer = fpm[0, 0]
    else:
        raise ValueError('coro')
    scale = wvl/mp.lambda0 if _scales_fpm(mp) else 1
    dxi = scale*mp.F3.compact.dxi
    deta = scale*mp.F3.compact.deta

    E, where, rows, cols = _response(mp, dm, dm.VtoH.reshape(dm.Nact**2)[iact], number, imode, iact, wvl)
    E = _apodizer(mp, dm)[where] * E
    x = dm.compact.x_pupPad[cols]
    y = dm.compact.y_pupPad[rows]
    if np.mod(rot*mp.Nrelay2to3, 2) == 1:
        x = -x[::-1]
        y = -y[::-1]
    kernel = -2j*np.pi/(wvl*mp.fl)
    dx = mp.P2.compact.dx
    focus = (np.exp(kernel*np.outer(scale*mp.F3.compact.etas, y))*np.sqrt(dx*dx)*np.sqrt(dxi*deta)/(wvl*mp.fl)) \
        @ np.rot90(E, k=2*rot*mp.Nrelay2to3) @ np.exp(kernel*np.outer(x, scale*mp.F3.compact.xis))
    if coro in ('LC', 'APLC', 'HLC'):
        focus = (outer - fpm)*focus
    else:
        focus = fpm*focus
    masked = fp.relay(fp.mft_f2p(focus, mp.fl, wvl, dxi, deta, mp.P4.compact.dx, mp.P4.compact.Narr, mp.centering), rot*mp.Nrelay3to4 - 1, mp.centering)
    if coro in ('LC', 'APLC', 'HLC'):
        direct = np.zeros((dm.compact.NdmPad, dm.compact.NdmPad), dtype=complex)
        direct[where] = E
        direct = pad_crop(fp.relay(direct, rot*(mp.Nrelay2to3 + mp.Nrelay3to4), mp.centering), mp.P4.compact.Narr)
        return (outer*direct - masked) * mp.P4.compact.croppedMask
    return masked * mp.P4.compact.croppedMask


def falco__model__jacobians__lyot(mp, imode, idm, iact):
    if idm == 1:
        dm = mp.dm1
        if iact in mp.dm1.dead:
            return _dead_column(mp)
        sbp = mp.jac.sbp_inds[imode]
        wvl = mp.sbp_centers[sbp]
        return _peak_normalised(mp, _column(mp, _lyot_plane(mp, mp.dm1, 1, imode, iact, sbp, wvl), sbp, wvl), imode, 1, iact) * mp.dm1.weight
    if idm == 2:
        if iact in mp.dm2.dead:
            return _dead_column(mp)
        sbp = mp.jac.sbp_inds[imode]
        wvl = mp.sbp_centers[sbp]
        return _peak_normalised(mp, _column(mp, _lyot_plane(mp, mp.dm2, 2, imode, iact, sbp, wvl), sbp, wvl), imode, 2, iact) * mp.dm2.weight
    raise ValueError('idm')


def _vortex_plane(mp, dm, number, Nfft, vortex, imode, iact, wvl):
    rot = _relays(mp)
    E, where, _, _ = _response(mp, dm, dm.VtoH.flatten()[iact] if number == 1 else dm.VtoH.reshape(dm.Nact**2)[iact], number, imode, iact, wvl)
    field = np.zeros((dm.compact.NdmPad, dm.compact.NdmPad), dtype=complex)
    field[where] = _apodizer(mp, dm)[where] * E
    field = pad_crop(fp.relay(field, rot*mp.Nrelay2to3, mp.centering), Nfft)
    field = fftshift(fft2(vortex*fft2(fftshift(field))/Nfft))/Nfft
    field = fp.relay(field, rot*mp.Nrelay3to4 - 1, mp.centering)
    if Nfft > mp.P4.compact.Narr:
        return mp.P4.compact.croppedMask * pad_crop(field, mp.P4.compact.Narr)
    return pad_crop(mp.P4.compact.croppedMask, Nfft) * field


def falco__model__jacobians__vortex(mp, imode, idm, iact):
    if idm == 1:
        if iact in mp.dm1.dead:
            return _dead_column(mp)
        sbp = mp.jac.sbp_inds[imode]
        wvl = mp.sbp_centers[sbp]
        E = _vortex_plane(mp, mp.dm1, 1, mp.jac.Nfft1_list[imode], mp.jac.fftshiftVortexDM1_list[imode], imode, iact, wvl)
        return _peak_normalised(mp, _column(mp, E, sbp, wvl), imode, 1, iact) * mp.dm1.weight
    if idm == 2:
        if iact in mp.dm2.dead:
            return _dead_column(mp)
        sbp = mp.jac.sbp_inds[imode]
        wvl = mp.sbp_centers[sbp]
        E = _vortex_plane(mp, mp.dm2, 2, mp.jac.Nfft2_list[imode], mp.jac.fftshiftVortexDM2_list[imode], imode, iact, wvl)
        return _peak_normalised(mp, _column(mp, E, sbp, wvl), imode, 2, iact) * mp.dm2.weight
    raise ValueError('idm')


def _peak(mp, dm, number, imode, iact):
    rot = _relays(mp)
    sbp = mp.jac.sbp_inds[imode]
    star = mp.jac.star_inds[imode]
    wvl = mp.sbp_centers[sbp]
    N = int(mp.compact.NdmPad)
    M = dm.compact.NdmPad
    tilt = _tilt(mp.compact.star.xiOffsetVec[star], mp.compact.star.etaOffsetVec[star], mp.P2.compact, mp, wvl)
    untilt = pad_crop(1./fp.relay(tilt, rot*mp.Nrelay1to2, mp.centering), M)
    if mp.P4.compact.Nbeam == mp.P1.compact.Nbeam:
        lyot = mp.P4.compact.mask
    elif hasattr(mp.P4.compact, 'maskAtP1res'):
        lyot = mp.P4.compact.maskAtP1res
    else:
        raise ValueError('maskAtP1res')
    lyot = pad_crop(fp.relay(pad_crop(lyot, N), rot*(mp.Nrelay2to3 + mp.Nrelay3to4), mp.centering), M)
    outer = mp.compact.fpmCube[0, 0, sbp] if mp.coro.upper() == 'HLC' else 1
    E, where, _, _ = _response(mp, dm, dm.VtoH.reshape(dm.Nact**2)[iact], number, imode, iact, wvl)
    E = _apodizer(mp, dm)[where] * untilt[where] * lyot[where] * E
    dx = mp.P2.compact.dx
    return np.sum(E)*outer*np.sqrt(dx*dx)*np.sqrt(mp.Fend.dxi*mp.Fend.deta)/(wvl*mp.fl)/np.sqrt(mp.Fend.compact.I00[sbp])


def falco__model__jacobians__no_fpm(mp, imode, idm, iact):
    if idm == 1:
        return _peak(mp, mp.dm1, 1, imode, iact)
    if idm == 2:
        return _peak(mp, mp.dm2, 2, imode, iact)
    raise ValueError('idm')


def falco__model__jacobians__precomp(mp):
    mp.jac.Edm1_list = []
    mp.jac.Edm2_list = []
    mp.jac.Epeak_list = []
    mp.jac.Eocculted_list = []
    mp.jac.Nfft1_list = []
    mp.jac.Nfft2_list = []
    mp.jac.fftshiftVortexDM1_list = []
    mp.jac.fftshiftVortexDM2_list = []
    for imode in range(mp.jac.Nmode):
        sbp = mp.jac.sbp_inds[imode]
        zern = mp.jac.zern_inds[imode]
        star = mp.jac.star_inds[imode]
        wvl = mp.sbp_centers[sbp]
        N = int(mp.compact.NdmPad)
        M = mp.dm2.compact.NdmPad
        width = mp.P2.compact.dx*N
        rot = _relays(mp)

        if _is_vortex(mp):
            charge = _charge(mp, wvl)
            Nfft1 = int(2**falco.util.nextpow2(np.max(np.array([mp.dm1.compact.NdmPad, 8*mp.dm1.compact.Nbox]))))
            Nfft2 = int(2**falco.util.nextpow2(np.max(np.array([mp.dm2.compact.NdmPad, 8*mp.dm2.compact.Nbox]))))
            mp.jac.Nfft1_list.append(Nfft1)
            mp.jac.fftshiftVortexDM1_list.append(fftshift(falco.mask.falco_gen_vortex_mask(charge, Nfft1)))
            mp.jac.Nfft2_list.append(Nfft2)
            mp.jac.fftshiftVortexDM2_list.append(fftshift(falco.mask.falco_gen_vortex_mask(charge, Nfft2)))

        if mp.jac.minimizeNI:
            modvar = falco.config.ModelVariables()
            modvar.sbpIndex = sbp
            modvar.zernIndex = zern
            modvar.starIndex = star
            modvar.whichSource = 'star'
            occulted = falco.model.compact(mp, modvar)
            open_field = falco.model.compact(mp, modvar, useFPM=False)
            brightest = np.unravel_index(np.argmax(np.abs(open_field), axis=None), open_field.shape)
            mp.jac.Epeak_list.append(open_field[brightest])
            mp.jac.Eocculted_list.append(occulted)

        s = mp.compact.star
        E = np.sqrt(s.weights[star]) * _tilt(s.xiOffsetVec[star], s.etaOffsetVec[star], mp.P2.compact, mp, wvl) * np.squeeze(mp.P1.compact.E[:, :, sbp])
        E = _zernike(E, mp, mp.P1.compact.Narr, mp.P1.compact.Nbeam, zern, wvl)
        E = fp.relay(pad_crop(mp.P1.compact.mask, N) * pad_crop(E, N), rot*mp.Nrelay1to2, mp.centering)
        if mp.d_P2_dm1 != 0:
            E = fp.ptp(E, width, wvl, mp.d_P2_dm1)
        surf1 = pad_crop(mp.dm1.compact.surfM, N) if any(mp.dm_ind == 1) else np.zeros((N, N))
        surf2 = pad_crop(mp.dm2.compact.surfM, N) if any(mp.dm_ind == 2) else np.zeros((N, N))
        E = E * _wfe(mp, 1, mp.dm1.compact, wvl, N) * _stop(mp.flagDM1stop, mp.dm1.compact, N) * np.exp(4j*np.pi*surf1/wvl)
        mp.jac.Edm1_list.append(E)
        E = pad_crop(pad_crop(fp.ptp(E, width, wvl, mp.d_dm1_dm2), M), M)
        E = pad_crop(_stop(mp.flagDM2stop, mp.dm2.compact, N), M) * pad_crop(_wfe(mp, 2, mp.dm2.compact, wvl, N), M) * E * np.exp(4j*np.pi/wvl*pad_crop(surf2, M))
        mp.jac.Edm2_list.append(E)


def falco__model__models___jac_middle_layer(mp, imode, idm, iact):
    layout = mp.layout.lower()
    coro = mp.coro.upper()
    if layout in ('fourier', 'proper', 'fpm_scale'):
        if coro in ('LC', 'APLC', 'HLC', 'FLC', 'SPLC'):
            return falco.model.jacobians.lyot(mp, imode, idm, iact)
        if coro in ('VC', 'AVC', 'VORTEX'):
            return falco.model.jacobians.vortex(mp, imode, idm, iact)
        raise ValueError('coro')
    if layout in ('wfirst_phaseb_proper', 'roman_phasec_proper'):
        if coro in ('HLC', 'SPC', 'SPLC'):
            return falco.model.jacobians.lyot(mp, imode, idm, iact)
        raise ValueError('coro')
    raise ValueError('layout')


def _fold_ties(dm, G):
    for ti in range(dm.tied.shape[0]):
        keep = np.nonzero(dm.act_ele == dm.tied[ti, 0])[0]
        drop = np.nonzero(dm.act_ele == dm.tied[ti, 1])[0]
        G[:, keep, :] = G[:, keep, :] + G[:, drop, :]
        G[:, drop, :] = 0*G[:, drop, :]


def falco__model__models__apply_ties_to_jac(mp, jacStruct):
    if any(mp.dm_ind == 1):
        mp.dm1 = falco.dm.enforce_constraints(mp.dm1)
        _fold_ties(mp.dm1, jacStruct.G1)
    if any(mp.dm_ind == 2):
        mp.dm2 = falco.dm.enforce_constraints(mp.dm2)
        _fold_ties(mp.dm2, jacStruct.G2)


def falco__model__models__jacobian(mp):
    jac = falco.config.Object()
    N = int(mp.compact.NdmPad)
    mp.dm1.compact.surfM = _surface(mp, mp.dm1, 1, mp.dm1.compact.dx, N)
    mp.dm2.compact.surfM = _surface(mp, mp.dm2, 2, mp.dm2.compact.dx, N)
    if mp.layout.lower() == 'fourier' and mp.coro.upper() == 'HLC' and not hasattr(mp.compact, 'fpmCube'):
        mp.compact.fpmCube, mp.dm8.surf, mp.dm9.surf = falco.hlc.gen_fpm_cube_from_LUT(mp, 'compact')
    falco.model.jacobians.precomp(mp)
    jac.G1 = np.zeros((mp.Fend.corr.Npix, mp.dm1.Nele, mp.jac.Nmode), dtype=complex)
    jac.G2 = np.zeros((mp.Fend.corr.Npix, mp.dm2.Nele, mp.jac.Nmode), dtype=complex)
    for imode in range(mp.jac.Nmode):
        if any(mp.dm_ind == 1):
            for index, iact in enumerate(mp.dm1.act_ele):
                jac.G1[:, index, imode] = falco.model.models._jac_middle_layer(mp, imode, 1, iact)
        if any(mp.dm_ind == 2):
            for index, iact in enumerate(mp.dm2.act_ele):
                jac.G2[:, index, imode] = falco.model.models._jac_middle_layer(mp, imode, 2, iact)
    falco.model.models.apply_ties_to_jac(mp, jac)
    return jac


# ---------------------------------------------------------------- gradient

def falco__model__models__compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm1post_list, Edm2pre_list, DM2surf_list):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    N = int(mp.compact.NdmPad)
    rot = _relays(mp)
    coro = mp.coro.upper()
    mask = mp.Fend.corr.maskBool
    stop2 = pad_crop(mp.dm2.compact.mask, N) if mp.flagDM2stop else 1.
    start1 = mp.dm1.V.copy()
    start2 = mp.dm2.V.copy()
    mp.dm1.V0 = start1
    mp.dm2.V0 = start2
    flat1 = np.zeros(mp.dm1.NactTotal)
    flat2 = np.zeros(mp.dm2.NactTotal)
    flat1[mp.dm1.act_ele] = command_vec[mp.ctrl.uLegend == 1]
    flat2[mp.dm2.act_ele] = command_vec[mp.ctrl.uLegend == 2]
    step1 = flat1.reshape((mp.dm1.Nact, mp.dm1.Nact))
    step2 = flat2.reshape((mp.dm2.Nact, mp.dm2.Nact))

    cost = 0
    slope1 = 0
    slope2 = 0
    for imode in range(mp.jac.Nmode):
        modvar = falco.config.ModelVariables()
        modvar.whichSource = 'star'
        modvar.sbpIndex = mp.jac.sbp_inds[imode]
        modvar.zernIndex = mp.jac.zern_inds[imode]
        modvar.starIndex = mp.jac.star_inds[imode]
        wvl = mp.sbp_centers[modvar.sbpIndex]
        k = 4*np.pi/wvl
        wfe2 = np.exp(2j*np.pi/wvl*pad_crop(mp.dm2.compact.wfe, N, extrapval=0)) if mp.flagDMwfe and any(mp.dm_ind == 2) else 1.

        if coro == 'HLC':
            fpm = falco.model.models._get_compact_hlc_fpm(mp, modvar.sbpIndex)
            outer = fpm[0, 0]
        elif coro in ('LC', 'APLC', 'SPLC', 'FLC'):
            fpm = mp.F3.compact.mask
            outer = 1.
        estimate = np.zeros_like(mask, dtype=complex)
        estimate[mask] = EestAll[:, imode]
        mp.dm1.V = mp.dm1.V0 + step1
        mp.dm2.V = mp.dm2.V0 + step2
        moved = falco.model.compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True, forRevGradModel=False)
        mp.dm1.V = mp.dm1.V0.copy()
        mp.dm2.V = mp.dm2.V0.copy()
        E = estimate + moved - EFend_list[imode]
        cost += mp.jac.weights[imode]*np.sum(np.abs(E[mask])**2)

        # reverse sweep: every element of the compact model in the opposite order, conjugated
        g = mp.jac.weights[imode]*2/np.sqrt(mp.Fend.compact.I00[modvar.sbpIndex])*E*mask
        g = fp.mft_f2p(g, -mp.fl, wvl, mp.Fend.dxi, mp.Fend.deta, mp.P4.compact.dx, mp.P4.compact.Narr, mp.centering)
        g = fp.relay(g, rot*mp.NrelayFend, mp.centering)
        g = g*np.conj(pad_crop(mp.P4.compact.croppedMask, mp.P4.compact.Narr))
        if _is_vortex(mp):
            g = fp.relay(pad_crop(g, N), rot*mp.Nrelay3to4 - 1, mp.centering)
            g = fp.mft_p2v2p(g, _charge(mp, wvl), mp.P1.compact.Nbeam/2., 0.3, 5, reverseGradient=True)
        elif coro in ('LC', 'APLC', 'HLC') or coro in ('SPLC', 'FLC'):
            scale = wvl/mp.lambda0 if _scales_fpm(mp) else 1.
            dxi = scale*mp.F3.compact.dxi
            deta = scale*mp.F3.compact.deta
            if coro in ('LC', 'APLC', 'HLC'):
                direct = pad_crop(fp.relay(np.conj(outer)*g, rot*mp.Nrelay3to4, mp.centering), N)
                f = fp.mft_p2f(fp.relay(-g, rot*mp.Nrelay3to4 - 1, mp.centering), -mp.fl, wvl, mp.P4.compact.dx, dxi, mp.F3.compact.Nxi, deta, mp.F3.compact.Neta, mp.centering)
                g = direct + fp.mft_f2p(np.conj(outer - fpm)*f, -mp.fl, wvl, dxi, deta, mp.P2.compact.dx, N, mp.centering)
            else:
                f = fp.mft_p2f(fp.relay(g, rot*mp.Nrelay3to4 - 1, mp.centering), -mp.fl, wvl, mp.P4.compact.dx, dxi, mp.F3.compact.Nxi, deta, mp.F3.compact.Neta, mp.centering)
                g = fp.mft_f2p(np.conj(fpm)*f, -mp.fl, wvl, dxi, deta, mp.P2.compact.dx, N, mp.centering)
        else:
            raise ValueError('coro')
        if mp.flagApod:
            g = np.conj(pad_crop(mp.P3.compact.mask, g.shape))*g
        g = fp.relay(g, rot*mp.Nrelay2to3, mp.centering)
        if mp.d_P2_dm1 + mp.d_dm1_dm2 != 0:
            g = fp.ptp(g, mp.P2.compact.dx*g.shape[0], wvl, mp.d_P2_dm1 + mp.d_dm1_dm2)
        g = np.conj(wfe2*np.exp(1j*k*DM2surf_list[imode]))*g
        slope2 += -k*np.imag(g*np.conj(Edm2pre_list[imode]))
        g = fp.ptp(np.conj(stop2)*g, mp.P2.compact.dx*g.shape[0], wvl, -mp.d_dm1_dm2)
        slope1 += -k*np.imag(g*np.conj(Edm1post_list[imode]))

    coef = mp.ctrl.ad.utu_scale_fac*10.0**log10reg
    cost += coef*np.sum(command_vec**2)
    if not (mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel):
        raise ValueError('differentiable model')
    v1 = mp.dm1.differentiableModel.render_backprop(slope1, wfe=False)
    v2 = mp.dm2.differentiableModel.render_backprop(slope2, wfe=False)
    v1 = v1*(mp.dm1.VtoH*np.conj(~mp.dm1.dead_map))
    v2 = v2*(mp.dm2.VtoH*np.conj(~mp.dm2.dead_map))
    grad = np.concatenate((v1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele], v2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]), axis=None)
    grad += 2*coef*command_vec
    return cost, grad
