"""Reference definitions of the propagation operators (C17)."""
import numpy as np
import scipy.signal
import falco
from falco import util
from falco.prop import _VALID_CENTERING


def falco__prop__relay(E_in, Nrelay, centering='pixel'):
    if centering not in _VALID_CENTERING:
        raise ValueError('centering')
    if np.mod(Nrelay, 2) == 1:
        E = E_in[::-1, ::-1]
        return np.roll(E, (1, 1), axis=(0, 1)) if centering == 'pixel' else E
    return E_in


def falco__prop__ptp(E_in, full_width, wavelength, dz):
    if dz == 0:
        return E_in
    if E_in.shape[0] != E_in.shape[1]:
        raise ValueError('square')
    kernel = util.angular_spectrum_transfer_function(E_in.shape, wavelength, full_width / E_in.shape[1], dz)
    return np.fft.ifftshift(np.fft.ifftn(kernel * np.fft.fftn(np.fft.fftshift(E_in))))


def falco__prop__mft_f2p(E_foc, fl, wavelength, dxi, deta, dx, N, centering='pixel'):
    if centering not in _VALID_CENTERING:
        raise ValueError('centering')
    xi = util.create_axis(E_foc.shape[1], dxi, centering=centering)
    eta = util.create_axis(E_foc.shape[0], deta, centering=centering)
    x = util.create_axis(N, dx, centering=centering)
    left = np.exp(-2j * np.pi / (wavelength * fl) * x[:, None] * eta[None, :])
    right = np.exp(-2j * np.pi / (wavelength * fl) * xi[:, None] * x[None, :])
    return np.sqrt(dx * dx * dxi * deta) / (wavelength * fl) * (left @ E_foc @ right)


def falco__prop__mft_p2f(E_pup, fl, wavelength, dx, dxi, Nxi, deta, Neta, centering='pixel'):
    if centering not in _VALID_CENTERING:
        raise ValueError('centering')
    if E_pup.shape[0] != E_pup.shape[1]:
        raise ValueError('square')
    x = util.create_axis(E_pup.shape[1], dx, centering=centering)
    xi = util.create_axis(Nxi, dxi, centering=centering)
    eta = util.create_axis(Neta, deta, centering=centering)
    left = np.exp(-2j * np.pi / (wavelength * fl) * eta[:, None] * x[None, :])
    right = np.exp(-2j * np.pi / (wavelength * fl) * x[:, None] * xi[None, :])
    return np.sqrt(dx * dx * dxi * deta) / (wavelength * fl) * (left @ E_pup @ right)


def falco__prop__fft2d(arrayIn):
    return np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(arrayIn), norm='ortho'))


def falco__prop__ifft2d(arrayIn):
    return np.fft.ifftshift(np.fft.ifft2(np.fft.fftshift(arrayIn), norm='ortho'))


def falco__prop__mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False):
    """Coarse transform of everything outside the window plus fine transform of the inside, both there and back."""
    sgn = -1.0 if reverseGradient else 1.0
    D = 2 * beamRadius
    b = 4.0
    NB = util.ceil_even(b * D)
    NA = pupilPre.shape[1]
    vortex = falco.mask.falco_gen_vortex_mask(charge, NB)
    vortex = np.conj(vortex) if reverseGradient else vortex
    rho = util.radial_grid(np.arange(-NB/2, NB/2))
    taper = 1 - inVal / outVal
    w1 = falco.prop.gen_tukey_for_vortex(2 * outVal * b, rho, taper)
    w2 = falco.prop.gen_tukey_for_vortex(NB, rho, taper)
    x = np.arange(-NA/2, NA/2) / D
    u1 = np.arange(-NB/2, NB/2) / b
    u2 = np.arange(-NB/2, NB/2) * 2 * outVal / NB
    k = -2j * np.pi * sgn
    c1 = 1 / (D * b)
    c2 = 2 * outVal / (D * NB)
    foc1 = c1 * (np.exp(k * np.outer(u1, x)) @ pupilPre @ np.exp(k * np.outer(x, u1)))
    foc2 = c2 * (np.exp(k * np.outer(u2, x)) @ pupilPre @ np.exp(k * np.outer(x, u2)))
    back1 = c1 * (np.exp(k * np.outer(x, u1)) @ (vortex * (1 - w1) * foc1) @ np.exp(k * np.outer(u1, x)))
    back2 = c2 * (np.exp(k * np.outer(x, u2)) @ (vortex * w2 * foc2) @ np.exp(k * np.outer(u2, x)))
    return back1 + back2


def falco__prop__gen_tukey_for_vortex(Nwindow, RHO, alpha):
    n = int(10 * Nwindow)
    return np.interp(RHO, np.linspace(-Nwindow/2, Nwindow/2, n), scipy.signal.windows.tukey(n, alpha))


def falco__util__angular_spectrum_transfer_function(samples, wvl, dx, z):
    fy = np.fft.fftfreq(samples[0], dx)
    fx = np.fft.fftfreq(samples[1], dx)
    return np.outer(np.exp(-1j * np.pi * wvl * z * fy**2), np.exp(-1j * np.pi * wvl * z * fx**2))


def falco__util__create_axis(N, step, centering='pixel'):
    axis = step * np.arange(np.ceil(-N/2), np.ceil(N/2))
    if N % 2 == 0 and centering == 'interpixel':
        return axis + step / 2
    return axis


def falco__util__radial_grid(axis, xStretch=1., yStretch=1.):
    return np.sqrt((axis[None, :] / xStretch)**2 + (axis[:, None] / yStretch)**2)


def falco__util__radial_grid_squared(axis, xStretch=1., yStretch=1.):
    return (axis[None, :] / xStretch)**2 + (axis[:, None] / yStretch)**2


def falco__util__azimuthal_grid(axis, xStretch=1., yStretch=1.):
    return np.arctan2(axis[:, None] / yStretch, axis[None, :] / xStretch)


def falco__mask__falco_gen_vortex_mask(charge, N):
    return np.exp(1j * charge * util.azimuthal_grid(np.arange(-N/2, N/2)))


def falco__util__cart2pol(x, y):
    return np.sqrt(x * x + y * y), np.arctan2(y, x)


def falco__util__ceil_even(x_in):
    return int(2 * np.ceil(0.5 * x_in))


def falco__util__ceil_odd(x_in):
    n = int(np.ceil(x_in))
    return n + 1 if n % 2 == 0 else n
