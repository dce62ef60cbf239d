"""Variants of set-up coordinates that must be told apart from the reference (bad) or not (good)."""
import falco


def bad1__falco__setup__compute_Fend_resolution(mp):
    unit = mp.fl * mp.lambda0 / mp.P4.D
    mp.Fend.dxi = unit / mp.Fend.res
    mp.Fend.deta = mp.Fend.dxi
    if mp.flagFiber:
        mp.Fend.lenslet.D = 2 * mp.Fend.res * mp.Fend.lensletWavRad * mp.Fend.dxi
        mp.Fend.x_lenslet_phys = mp.Fend.dxi * mp.Fend.res * mp.Fend.x_lenslet
        mp.Fend.y_lenslet_phys = mp.Fend.deta * mp.Fend.res * mp.Fend.x_lenslet
        mp.F5.dxi = mp.lensletFL * mp.lambda0 / mp.Fend.lenslet.D / mp.F5.res
        mp.F5.deta = mp.F5.dxi
    if not hasattr(mp.Fend, 'eval'):
        mp.Fend.eval = falco.config.Object()
    mp.Fend.eval.dxi = unit / mp.Fend.eval.res
    mp.Fend.eval.deta = mp.Fend.eval.dxi


def good1__falco__setup__compute_Fend_resolution(mp):
    mp.Fend.deta = mp.lambda0 / mp.P4.D * mp.fl / mp.Fend.res
    mp.Fend.dxi = mp.Fend.deta
    if mp.flagFiber:
        res, d = mp.Fend.res, mp.Fend.dxi
        mp.Fend.lenslet.D = 2 * (d * res) * mp.Fend.lensletWavRad
        mp.Fend.x_lenslet_phys = d * res * mp.Fend.x_lenslet
        mp.Fend.y_lenslet_phys = d * res * mp.Fend.y_lenslet
        mp.F5.deta = mp.lensletFL * mp.lambda0 / (mp.Fend.lenslet.D * mp.F5.res)
        mp.F5.dxi = mp.F5.deta
    if not hasattr(mp.Fend, 'eval'):
        mp.Fend.eval = falco.config.Object()
    mp.Fend.eval.deta = mp.Fend.eval.dxi = mp.fl * mp.lambda0 / mp.P4.D / mp.Fend.eval.res
