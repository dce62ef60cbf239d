"""Positive examples of C21: wrong (bad*) and merely rewritten (good*) variants of compared functions."""
import numpy as np

from falco import diff_dm, fftutils, util


def bad1__falco__diff_dm__DM__render_backprop(self, protograd, wfe=True):
    """Transfer function not conjugated."""
    g = util.pad_crop(protograd, self.Nintermediate)
    if self.upsample != 1:
        g = diff_dm.fourier_resample_backprop(g, self.upsample, self.ifn.shape)
    if wfe:
        g = g * 2 * self.obliquity
    if self.needs_rot:
        g = diff_dm.warp(g, self.invprojx, self.invprojy) * self.projarea
    return diff_dm.apply_precomputed_transfer_function(g, self.tf)[self.iyy, self.ixx]


def bad2__falco__diff_dm__DM__render_backprop(self, protograd, wfe=True):
    """Projected before it is resampled."""
    g = util.pad_crop(protograd, self.Nintermediate)
    if self.needs_rot:
        g = diff_dm.warp(g, self.invprojx, self.invprojy) * self.projarea
    if self.upsample != 1:
        g = diff_dm.fourier_resample_backprop(g, self.upsample, self.ifn.shape)
    if wfe:
        g = g * 2 * self.obliquity
    return diff_dm.apply_precomputed_transfer_function(g, np.conj(self.tf))[self.iyy, self.ixx]


def good__falco__diff_dm__DM__render_backprop(self, protograd, wfe=True):
    """The obliquity factor commutes with the other steps."""
    g = util.pad_crop(protograd, self.Nintermediate)
    if not self.upsample == 1:
        g = diff_dm.fourier_resample_backprop(g, self.upsample, self.ifn.shape)
    factor = 2 * self.obliquity if wfe else 1
    g *= factor
    if self.needs_rot:
        h = self.projarea * diff_dm.warp(g, self.invprojx, self.invprojy)
    else:
        h = g
    tf = np.conj(self.tf)
    acts = diff_dm.apply_precomputed_transfer_function(h, tf)
    return acts[self.iyy, self.ixx]


def good__falco__diff_dm__fourier_resample(f, zoom):
    if not zoom == 1:
        if isinstance(zoom, (float, int)):
            zy, zx = zoom, zoom
        elif isinstance(zoom, tuple):
            zy, zx = zoom
        else:
            zy, zx = tuple(float(z) for z in zoom)
        M = int(np.round(f.shape[0] * zy))
        N = int(np.round(f.shape[1] * zx))
        Mx, My = diff_dm.setup_mft_matricies_scalars((M, N), f.shape, f.shape[1] * zx / N, f.shape[0] * zy / M)
        F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f), norm='ortho'))
        return diff_dm.imft2_core(F, Mx, My).real * np.sqrt(zx * zy)
    return f


def bad__falco__diff_dm__fourier_resample(f, zoom):
    """Scaled by the square of the zoom."""
    if isinstance(zoom, (float, int)):
        zoom = (zoom, zoom)
    elif not isinstance(zoom, tuple):
        zoom = tuple(float(z) for z in zoom)
    M = int(np.round(f.shape[0] * zoom[0]))
    N = int(np.round(f.shape[1] * zoom[1]))
    Mx, My = diff_dm.setup_mft_matricies_scalars((M, N), f.shape, f.shape[1] * zoom[1] / N, f.shape[0] * zoom[0] / M)
    F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f), norm='ortho'))
    return diff_dm.imft2_core(F, Mx, My).real * zoom[0] * zoom[1]
