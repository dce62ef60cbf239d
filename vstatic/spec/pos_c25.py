"""Variants of mask generators: bad ones must be told apart from the reference, good ones must not."""
import numpy as np
import falco
import falco.proper as proper
from falco import check
from falco.util import ceil_even


def bad1__falco__mask__falco_gen_DM_stop(dx, diamMask, centering):
    wf = falco.mask._init_proper(diamMask, dx, centering)
    shift = 0 if centering == 'pixel' else -dx / 2
    proper.prop_circular_aperture(wf, diamMask / 2, shift, 0)
    return np.fft.ifftshift(np.abs(wf.wfarr))


def good1__falco__mask__falco_gen_DM_stop(dx, diamMask, centering):
    check.centering(centering)
    wf = falco.mask._init_proper(diamMask, dx, centering)
    radius = 0.5 * diamMask
    offset = -(dx / 2) * (centering == 'interpixel')
    proper.prop_circular_aperture(wf, radius, offset, offset)
    stop = np.abs(wf.wfarr)
    return np.fft.ifftshift(stop)


def bad1__falco__mask__gen_annular_fpm(inputs):
    res, inner, outer = inputs['pixresFPM'], inputs['rhoInner'], inputs['rhoOuter']
    x0, y0, amp = inputs.get('xOffset', 0), inputs.get('yOffset', 0), inputs.get('FPMampFac', 0)
    dx = 1.0 / res
    edge = inner if np.isinf(outer) else outer
    N = 2 * edge / dx + 2 * np.max(np.array([np.abs(x0), np.abs(y0)])) / dx
    N = ceil_even(N + 1) if inputs.get('centering', 'pixel') == 'pixel' else ceil_even(N)
    N = inputs['Narray'] if 'Narray' in inputs else N
    shift = -N * dx / 2 / N if inputs.get('centering', 'pixel') == 'interpixel' else 0
    wf = proper.prop_begin(2 * res * edge, 1e-6, N, 2 * res * edge / (N * dx))
    proper.prop_set_antialiasing(101)
    if not np.isinf(outer):
        proper.prop_circular_aperture(wf, outer, shift + y0, shift + x0)
    spot = proper.prop_ellipse(wf, inner, inner, shift + x0, shift + y0, DARK=True) * (1 - amp) + amp
    return np.fft.ifftshift(np.abs(wf.wfarr)) * spot
