"""Positive examples of C22: wrong (bad*) and merely rewritten (good*) variants of compared functions."""
import numpy as np

import falco


def bad__falco__est__gen_pairwise_probe(mp, InormDes, phaseShift, starIndex, rotation):
    """Region of the first star for every star."""
    p = mp.est.probe
    if p.xiOffset[starIndex] == 0 and p.etaOffset[starIndex] == 0:
        raise ValueError('centre')
    if p.whichDM == 1:
        dm = mp.dm1
    elif p.whichDM == 2:
        dm = mp.dm2
    else:
        raise ValueError('whichDM')
    N = dm.Nact
    line = np.linspace(-(N - 1) / 2, (N - 1) / 2, N) / N
    X, Y = np.meshgrid(line - float(round(p.xOffset)) / N, line - float(round(p.yOffset)) / N)
    if np.abs(rotation) > 10 * np.finfo(float).eps:
        r = np.sqrt(X**2 + Y**2)
        t = np.arctan2(Y, X)
        X = r * np.cos(t - np.radians(rotation))
        Y = r * np.sin(t - np.radians(rotation))
    scale = N / (mp.P2.D / dm.dm_spacing)
    height = 4 * np.pi * mp.lambda0 * np.sqrt(InormDes)
    surf = height * np.sinc(p.width[starIndex] * scale * X) * np.sinc(p.height[0] * scale * Y) * \
        np.cos(2 * np.pi * (p.xiOffset[starIndex] * scale * X + p.etaOffset[starIndex] * scale * Y) + phaseShift)
    return p.gainFudge[starIndex] * falco.dm.fit_surf_to_act(dm, surf)


def _perfect(mp, ev, square_of_each):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    if hasattr(mp.full, 'pol_conds'):
        conds = set(mp.full.pol_conds)
        if conds in ({-2, -1, 1, 2}, {10}):
            mp.full.polaxis = 10
        elif conds in ({-1, 1}, {5}):
            mp.full.polaxis = 5
        elif conds in ({-2, 2}, {6}):
            mp.full.polaxis = 6
        elif conds == {0}:
            mp.full.polaxis = 0
        else:
            raise ValueError('pol_conds')
    shape = (mp.Fend.Neta, mp.Fend.Nxi)
    ev.imageArray = np.zeros(shape + (1, mp.Nsbp))
    fields = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode), dtype=complex)
    var = falco.config.ModelVariables()
    for k in range(mp.jac.Nmode):
        var.whichSource = 'star'
        var.starIndex = mp.jac.star_inds[k]
        var.zernIndex = mp.jac.zern_inds[k]
        var.sbpIndex = mp.jac.sbp_inds[k]
        total = np.zeros(shape, dtype=complex)
        for w in range(mp.Nwpsbp):
            var.wpsbpIndex = w
            total = total + falco.model.full(mp, var) * mp.full.lambda_weights[w]
        fields[:, k] = total[mp.Fend.corr.maskBool]
        if var.zernIndex == 1:
            if square_of_each:
                ev.imageArray[:, :, 0, 0] += np.abs(total)**2
            else:
                ev.imageArray[:, :, 0, var.sbpIndex] += np.abs(total)**2
    ev.IincoEst = np.zeros(fields.shape, dtype=float)
    ev.Eest = fields
    return ev


def bad__falco__est__perfect(mp, ev):
    """Every subband's image in the slot of the first."""
    return _perfect(mp, ev, True)


def good__falco__est__perfect(mp, ev):
    return _perfect(mp, ev, False)


def bad__falco__est__wrapper(mp, ev, jacStruct):
    """Image taken before the estimate."""
    if mp.estimator == 'perfect':
        ev.Im = falco.imaging.get_summed_image(mp)
        falco.est.perfect(mp, ev)
    elif mp.estimator in ['pairwise', 'pairwise-square', 'pairwise-rect', 'pwp-bp-square', 'pwp-bp', 'pwp-kf']:
        if mp.est.flagUseJac:
            falco.est.pairwise_probing(mp, ev)
        else:
            falco.est.pairwise_probing(mp, ev, jacStruct=jacStruct)
    else:
        raise ValueError('estimator')
