"""Variants of the optical models: bad ones must be told apart from the reference, good ones must not."""
import numpy as np
import falco


def bad__falco__model__models___get_compact_hlc_fpm(mp, sbpIndex):
    layout = mp.layout.lower()
    if layout == 'fourier':
        return falco.hlc.gen_fpm_from_LUT(mp, sbpIndex, -1, 'full')
    if layout in ('roman_phasec_proper', 'wfirst_phaseb_proper', 'fpm_scale', 'proper'):
        return mp.compact.fpmCube[:, :, sbpIndex]
    raise ValueError('layout')


def bad2__falco__model__models___get_compact_hlc_fpm(mp, sbpIndex):
    if mp.layout.lower() in ('fourier', 'roman_phasec_proper', 'wfirst_phaseb_proper', 'fpm_scale', 'proper'):
        return mp.compact.fpmCube[:, :, mp.si_ref]
    raise ValueError('layout')


def good__falco__model__models___get_compact_hlc_fpm(mp, sbpIndex):
    kind = mp.layout.lower()
    if kind not in ('proper', 'fpm_scale', 'roman_phasec_proper', 'wfirst_phaseb_proper', 'fourier'):
        raise ValueError(kind)
    stored = hasattr(mp.compact, 'fpmCube') or kind != 'fourier'
    return mp.compact.fpmCube[:, :, sbpIndex] if stored else falco.hlc.gen_fpm_from_LUT(mp, sbpIndex, -1, 'compact')


def bad__falco__model__models__apply_ties_to_jac(mp, jacStruct):
    if any(mp.dm_ind == 1):
        mp.dm1 = falco.dm.enforce_constraints(mp.dm1)
        for i in range(mp.dm1.tied.shape[0]):
            a = np.nonzero(mp.dm1.act_ele == mp.dm1.tied[i, 0])[0]
            b = np.nonzero(mp.dm1.act_ele == mp.dm1.tied[i, 1])[0]
            jacStruct.G1[:, a, :] += jacStruct.G1[:, b, :]
            jacStruct.G1[:, b, :] = 0
    if any(mp.dm_ind == 2):
        mp.dm2 = falco.dm.enforce_constraints(mp.dm2)
        for i in range(mp.dm1.tied.shape[0]):
            a = np.nonzero(mp.dm2.act_ele == mp.dm1.tied[i, 0])[0]
            b = np.nonzero(mp.dm2.act_ele == mp.dm1.tied[i, 1])[0]
            jacStruct.G2[:, a, :] += jacStruct.G2[:, b, :]
            jacStruct.G2[:, b, :] = 0


def good__falco__model__models__apply_ties_to_jac(mp, jacStruct):
    def fold(dm, G):
        for pair in range(dm.tied.shape[0]):
            keep, drop = [np.nonzero(dm.act_ele == dm.tied[pair, k])[0] for k in (0, 1)]
            G[:, keep, :] = G[:, keep, :] + G[:, drop, :]
            G[:, drop, :] *= 0

    if any(mp.dm_ind == 1):
        mp.dm1 = falco.dm.enforce_constraints(mp.dm1)
        fold(mp.dm1, jacStruct.G1)
    if any(mp.dm_ind == 2):
        mp.dm2 = falco.dm.enforce_constraints(mp.dm2)
        fold(mp.dm2, jacStruct.G2)
