"""Reference definitions of the coordinates that set-up stores for each axis (C06)."""
import numpy as np

import falco
from falco import mask, util


def _axis(n, pixel):
    return np.linspace(-n/2, n/2 - 1, n) if pixel else np.linspace(-(n - 1)/2, (n - 1)/2, n)


def falco__setup__compute_entrance_pupil_coordinates(mp):
    if not hasattr(mp.P2, 'full'):
        mp.P2.full = falco.config.Object()
    mp.P2.full.dx = mp.P2.D / mp.P1.full.Nbeam
    if not hasattr(mp.P2, 'compact'):
        mp.P2.compact = falco.config.Object()
    mp.P2.compact.dx = mp.P2.D / mp.P1.compact.Nbeam
    mp.P3.full.dx = mp.P2.full.dx
    mp.P3.compact.dx = mp.P2.compact.dx
    mp.P1.compact.mask = util.pad_to_even_square(mp.P1.compact.mask)
    mp.P1.compact.Narr = mp.P1.compact.mask.shape[0]
    if mp.centering == 'pixel':
        mp.P2.compact.xsDL = _axis(mp.P1.compact.Narr, True) * mp.P2.compact.dx / mp.P2.D
    elif mp.centering == 'interpixel':
        mp.P2.compact.xsDL = _axis(mp.P1.compact.Narr, False) * mp.P2.compact.dx / mp.P2.D
    mp.P2.compact.XsDL, mp.P2.compact.YsDL = np.meshgrid(mp.P2.compact.xsDL, mp.P2.compact.xsDL)
    if mp.full.flagPROPER:
        if mp.centering == 'pixel':
            mp.P1.full.Narr = util.ceil_even(mp.P1.full.Nbeam + 1)
        elif mp.centering == 'interpixel':
            mp.P1.full.Narr = util.ceil_even(mp.P1.full.Nbeam)
    else:
        mp.P1.full.mask = util.pad_to_even_square(mp.P1.full.mask)
        mp.P1.full.Narr = mp.P1.full.mask.shape[0]
    if mp.centering == 'pixel':
        mp.P2.full.xsDL = _axis(mp.P1.full.Narr, True) * mp.P2.full.dx / mp.P2.D
    elif mp.centering.lower() == 'interpixel':
        mp.P2.full.xsDL = _axis(mp.P1.full.Narr, False) * mp.P2.full.dx / mp.P2.D
    mp.P2.full.XsDL, mp.P2.full.YsDL = np.meshgrid(mp.P2.full.xsDL, mp.P2.full.xsDL)


def falco__setup__compute_apodizer_shape(mp):
    if hasattr(mp.P3.compact, 'mask'):
        mp.P3.compact.mask = util.pad_to_even_square(mp.P3.compact.mask)
        mp.P3.compact.Narr = mp.P3.compact.mask.shape[0]
    if hasattr(mp.P3.full, 'mask'):
        mp.P3.full.mask = util.pad_to_even_square(mp.P3.full.mask)
        mp.P3.full.Narr = mp.P3.full.mask.shape[0]


def falco__setup__compute_lyot_stop_coordinates(mp):
    if not mp.full.flagPROPER:
        mp.P4.full.dx = mp.P4.D / mp.P4.full.Nbeam
    mp.P4.compact.dx = mp.P4.D / mp.P4.compact.Nbeam
    if mp.centering == 'pixel':
        mp.P4.compact.xs = _axis(mp.P4.compact.Narr, True) * mp.P4.compact.dx
    elif mp.centering == 'interpixel':
        mp.P4.compact.xs = _axis(mp.P4.compact.Narr, False) * mp.P4.compact.dx
    mp.P4.compact.ys = np.transpose(mp.P4.compact.xs)


def falco__setup__falco_compute_fpm_coordinates(mp):
    """Each axis has its own number of points, and its own parity decides where its centre lies."""
    if mp.coro.upper() in ['VORTEX', 'VC']:
        return
    unit = mp.fl * mp.lambda0 / mp.P2.D
    if not hasattr(mp.F3, 'compact'):
        mp.F3.compact = falco.config.Object()
    if not hasattr(mp.F3.compact, 'Nxi'):
        mp.F3.compact.Nxi = mp.F3.compact.mask.shape[1]
    if not hasattr(mp.F3.compact, 'Neta'):
        mp.F3.compact.Neta = mp.F3.compact.mask.shape[0]
    mp.F3.compact.dxi = unit / mp.F3.compact.res
    mp.F3.compact.deta = mp.F3.compact.dxi
    if mp.centering == 'interpixel' or mp.F3.compact.Nxi % 2 == 1:
        mp.F3.compact.xis = _axis(mp.F3.compact.Nxi, False) * mp.F3.compact.dxi
    elif mp.centering == 'pixel':
        mp.F3.compact.xis = np.arange(-mp.F3.compact.Nxi/2, mp.F3.compact.Nxi/2) * mp.F3.compact.dxi
    if mp.centering == 'interpixel' or mp.F3.compact.Neta % 2 == 1:
        mp.F3.compact.etas = _axis(mp.F3.compact.Neta, False) * mp.F3.compact.deta
    elif mp.centering == 'pixel':
        mp.F3.compact.etas = np.arange(-mp.F3.compact.Neta/2, mp.F3.compact.Neta/2) * mp.F3.compact.deta
    mp.F3.compact.xisDL = mp.F3.compact.xis / unit
    mp.F3.compact.etasDL = mp.F3.compact.etas / unit
    if mp.layout in ('roman_phasec_proper', 'wfirst_phaseb_proper', 'proper'):
        return
    if not hasattr(mp.F3, 'full'):
        mp.F3.full = falco.config.Object()
    if not hasattr(mp.F3.full, 'Nxi'):
        mp.F3.full.Nxi = mp.F3.full.mask.shape[1]
    if not hasattr(mp.F3.full, 'Neta'):
        mp.F3.full.Neta = mp.F3.full.mask.shape[0]
    mp.F3.full.dxi = unit / mp.F3.full.res
    mp.F3.full.deta = mp.F3.full.dxi
    if mp.centering == 'interpixel' or mp.F3.full.Nxi % 2 == 1:
        mp.F3.full.xisDL = _axis(mp.F3.full.Nxi, False) / mp.F3.full.res
    elif mp.centering == 'pixel':
        mp.F3.full.xisDL = np.arange(-mp.F3.full.Nxi/2, mp.F3.full.Nxi/2) / mp.F3.full.res
    if mp.centering == 'interpixel' or mp.F3.full.Neta % 2 == 1:
        mp.F3.full.etasDL = _axis(mp.F3.full.Neta, False) / mp.F3.full.res
    elif mp.centering == 'pixel':
        mp.F3.full.etasDL = np.arange(-mp.F3.full.Neta/2, mp.F3.full.Neta/2) / mp.F3.full.res


def falco__setup__compute_Fend_resolution(mp):
    unit = mp.fl * mp.lambda0 / mp.P4.D
    mp.Fend.dxi = unit / mp.Fend.res
    mp.Fend.deta = mp.Fend.dxi
    if mp.flagFiber:
        mp.Fend.lenslet.D = 2 * mp.Fend.res * mp.Fend.lensletWavRad * mp.Fend.dxi
        mp.Fend.x_lenslet_phys = mp.Fend.dxi * mp.Fend.res * mp.Fend.x_lenslet
        mp.Fend.y_lenslet_phys = mp.Fend.deta * mp.Fend.res * mp.Fend.y_lenslet
        mp.F5.dxi = mp.lensletFL * mp.lambda0 / mp.Fend.lenslet.D / mp.F5.res
        mp.F5.deta = mp.F5.dxi
    if not hasattr(mp.Fend, 'eval'):
        mp.Fend.eval = falco.config.Object()
    mp.Fend.eval.dxi = unit / mp.Fend.eval.res
    mp.Fend.eval.deta = mp.Fend.eval.dxi


def falco__setup__falco_configure_dark_hole_region(mp):
    mp.Fend.corr.Rin = np.atleast_1d(mp.Fend.corr.Rin)
    mp.Fend.corr.Rout = np.atleast_1d(mp.Fend.corr.Rout)
    mp.Fend.corr.ang = np.atleast_1d(mp.Fend.corr.ang)
    sides = np.atleast_1d(mp.Fend.sides)
    corr = {'pixresFP': mp.Fend.res, 'centering': mp.centering}
    if hasattr(mp.Fend, 'FOV'):
        corr['FOV'] = mp.Fend.FOV
    if hasattr(mp.Fend, 'xiFOV'):
        corr['xiFOV'] = mp.Fend.xiFOV
    if hasattr(mp.Fend, 'etaFOV'):
        corr['etaFOV'] = mp.Fend.etaFOV
    if hasattr(mp.Fend, 'Nxi'):
        corr['Nxi'] = mp.Fend.Nxi
    if hasattr(mp.Fend, 'Neta'):
        corr['Neta'] = mp.Fend.Neta
    if not hasattr(mp.Fend, 'shape'):
        mp.Fend.shape = []
        for ii in range(mp.Fend.corr.Rin.size):
            mp.Fend.shape.append('circle')
    shapes = np.atleast_1d(mp.Fend.shape)
    both = np.zeros((1, 1))
    for k in range(mp.Fend.corr.Rin.size):
        corr['rhoInner'] = mp.Fend.corr.Rin[k]
        corr['rhoOuter'] = mp.Fend.corr.Rout[k]
        corr['angDeg'] = mp.Fend.corr.ang[k]
        corr['whichSide'] = sides[k]
        corr['shape'] = shapes[k]
        if hasattr(mp.Fend, 'clockAngDeg'):
            mp.Fend.clockAngDeg = np.atleast_1d(mp.Fend.clockAngDeg)
            corr['clockAngDeg'] = mp.Fend.clockAngDeg[k]
        if hasattr(mp.Fend, 'xiOffset'):
            mp.Fend.xiOffset = np.atleast_1d(mp.Fend.xiOffset)
            corr['xiOffset'] = mp.Fend.xiOffset[k]
        if hasattr(mp.Fend, 'etaOffset'):
            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.etaOffset)
            corr['etaOffset'] = mp.Fend.etaOffset[k]
        one, _, _ = mask.falco_gen_SW_mask(corr)
        rows = int(np.max(np.array([one.shape[0], both.shape[0]])))
        cols = int(np.max(np.array([one.shape[1], both.shape[1]])))
        both = util.pad_crop(both, [rows, cols]) + util.pad_crop(one, [rows, cols])
    mp.Fend.corr.maskBool = np.array(both, dtype=bool)
    corr['Nxi'] = both.shape[1]
    corr['Neta'] = both.shape[0]
    _, mp.Fend.xisDL, mp.Fend.etasDL = mask.falco_gen_SW_mask(corr)
    mp.Fend.Nxi = mp.Fend.corr.maskBool.shape[1]
    mp.Fend.Neta = mp.Fend.corr.maskBool.shape[0]
    xi, eta = np.meshgrid(mp.Fend.xisDL, mp.Fend.etasDL)
    mp.Fend.RHOS = np.sqrt(xi**2 + eta**2)
    if not hasattr(mp.Fend, 'eval'):
        mp.Fend.eval = falco.config.Object()
    corr['pixresFP'] = mp.Fend.eval.res
    corr['Nxi'] = util.ceil_even(mp.Fend.eval.res / mp.Fend.res * mp.Fend.Nxi)
    corr['Neta'] = util.ceil_even(mp.Fend.eval.res / mp.Fend.res * mp.Fend.Neta)
    mp.Fend.eval.Nxi = corr['Nxi']
    mp.Fend.eval.Neta = corr['Neta']
    _, mp.Fend.eval.xisDL, mp.Fend.eval.etasDL = mask.falco_gen_SW_mask(corr)
    xi, eta = np.meshgrid(mp.Fend.eval.xisDL - mp.thput_eval_x, mp.Fend.eval.etasDL - mp.thput_eval_y)
    mp.Fend.eval.RHOS = np.sqrt(xi**2 + eta**2)
    mp.Fend.score.Rin = np.atleast_1d(mp.Fend.score.Rin)
    mp.Fend.score.Rout = np.atleast_1d(mp.Fend.score.Rout)
    mp.Fend.score.ang = np.atleast_1d(mp.Fend.score.ang)
    score = {'Nxi': mp.Fend.Nxi, 'Neta': mp.Fend.Neta, 'pixresFP': mp.Fend.res, 'centering': mp.centering}
    total = 0
    for k in range(mp.Fend.score.Rin.size):
        score['rhoInner'] = mp.Fend.score.Rin[k]
        score['rhoOuter'] = mp.Fend.score.Rout[k]
        score['angDeg'] = mp.Fend.score.ang[k]
        score['whichSide'] = sides[k]
        score['shape'] = shapes[k]
        if hasattr(mp.Fend, 'clockAngDeg'):
            mp.Fend.clockAngDeg = np.atleast_1d(mp.Fend.clockAngDeg)
            score['clockAngDeg'] = mp.Fend.clockAngDeg[k]
        if hasattr(mp.Fend, 'xiOffset'):
            mp.Fend.xiOffset = np.atleast_1d(mp.Fend.xiOffset)
            score['xiOffset'] = mp.Fend.xiOffset[k]
        if hasattr(mp.Fend, 'etaOffset'):
            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.etaOffset)
            score['etaOffset'] = mp.Fend.etaOffset[k]
        one, _, _ = mask.falco_gen_SW_mask(score)
        total += one
    mp.Fend.score.maskBool = np.array(total, dtype=bool)
    mp.Fend.corr.Npix = np.sum(mp.Fend.corr.maskBool)
    mp.Fend.score.Npix = np.sum(mp.Fend.score.maskBool)
    mp.Fend.scoreInCorr = mp.Fend.score.maskBool[mp.Fend.corr.maskBool]
