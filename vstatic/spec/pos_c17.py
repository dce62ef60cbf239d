"""Variants of the propagation operators: bad ones must be told apart from the reference, good ones must not."""
import numpy as np
import falco
from falco import util


def bad1__falco__prop__relay(E_in, Nrelay, centering='pixel'):
    E = E_in
    for _ in range(1):
        if Nrelay % 2 == 1:
            E = E_in[::-1, ::-1]
            if centering == 'pixel':
                E = np.roll(E, (1, 0), axis=(0, 1))
    return E


def bad2__falco__prop__relay(E_in, Nrelay, centering='pixel'):
    if Nrelay % 2 == 1:
        E = np.rot90(E_in, 2)
        if centering == 'interpixel':
            E = np.roll(E, (1, 1), axis=(0, 1))
        return E
    return E_in


def good1__falco__prop__relay(E_in, Nrelay, centering='pixel'):
    if Nrelay % 2 != 1:
        return E_in
    flipped = np.rot90(E_in, 2)
    if centering != 'pixel':
        return flipped
    return np.roll(flipped, [1, 1], axis=[0, 1])


def bad__falco__prop__ptp(E_in, full_width, wavelength, dz):
    if dz <= 0:
        return E_in
    tf = util.angular_spectrum_transfer_function(E_in.shape, wavelength, full_width / E_in.shape[1], dz)
    return np.fft.ifftshift(np.fft.ifft2(tf * np.fft.fft2(np.fft.fftshift(E_in))))


def bad1__falco__prop__mft_p2f(E_pup, fl, wavelength, dx, dxi, Nxi, deta, Neta, centering='pixel'):
    x = util.create_axis(E_pup.shape[0], dx, centering=centering)
    xi = util.create_axis(Nxi, dxi, centering=centering)
    eta = util.create_axis(Neta, deta, centering=centering)
    c = 2 * np.pi / (fl * wavelength)
    return dx * dxi / (wavelength * fl) * (np.exp(-1j * c * np.outer(eta, x)) @ E_pup @ np.exp(-1j * c * np.outer(x, xi)))


def bad2__falco__prop__mft_p2f(E_pup, fl, wavelength, dx, dxi, Nxi, deta, Neta, centering='pixel'):
    x = util.create_axis(E_pup.shape[0], dx, centering=centering)
    xi = util.create_axis(Nxi, dxi, centering=centering)
    eta = util.create_axis(Neta, deta, centering='pixel')
    c = 2 * np.pi / (fl * wavelength)
    return dx * np.sqrt(dxi * deta) / (wavelength * fl) * (np.exp(-1j * c * np.outer(eta, x)) @ E_pup @ np.exp(-1j * c * np.outer(x, xi)))


def bad__falco__util__create_axis(N, step, centering='pixel'):
    axis = np.arange(np.ceil(-N/2), np.ceil(N/2)) * step
    if centering == 'interpixel':
        axis = axis + 0.5 * step
    return axis


def good__falco__util__create_axis(N, step, centering='pixel'):
    pix = np.arange(np.ceil(-N/2), np.ceil(N/2))
    if not N % 2 and centering == 'interpixel':
        pix = pix + 0.5
    return step * pix
