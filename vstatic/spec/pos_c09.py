import numpy as np
import falco
from falco import check


def _ends(v, dm, mp):
    if v is not None:
        check.real_scalar(v, 'v', TypeError)


# the check comes after a short cut that serves the call without it
def bad1__falco__prop__ptp(E_in, full_width, wavelength, dz):
    check.twoD_array(E_in, 'E_in', TypeError)
    if dz == 0:
        return E_in
    check.real_positive_scalar(full_width, 'full_width', TypeError)
    check.real_positive_scalar(wavelength, 'wavelength', TypeError)
    check.real_scalar(dz, 'dz', TypeError)
    if E_in.shape[0] != E_in.shape[1]:
        raise ValueError('not square')
    return E_in


def good1__falco__prop__ptp(E_in, full_width, wavelength, dz):
    for v in (full_width, wavelength):
        check.real_positive_scalar(v, 'v', TypeError)
    check.real_scalar(dz, 'dz', TypeError)
    check.twoD_array(E_in, 'E_in', TypeError)
    if not dz == 0:
        shape = E_in.shape
        square = shape[0] == shape[1]
        if not square:
            raise ValueError('not square')
    return E_in


# another value than the one used is checked
def bad2__falco__prop__mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False):
    check.twoD_array(pupilPre, 'pupilPre', TypeError)
    check.scalar_integer(charge, 'charge', TypeError)
    check.real_positive_scalar(beamRadius, 'beamRadius', TypeError)
    check.real_positive_scalar(inVal, 'inVal', TypeError)
    check.real_positive_scalar(inVal, 'outVal', TypeError)


# a bound that lets one more value through
def bad1__falco__dm__fit_surf_to_act(dm, surfaceToFit):
    check.twoD_array(surfaceToFit, 'surfaceToFit', TypeError)
    if surfaceToFit.shape[1] < dm.Nact - 1:
        raise ValueError('too small')
    if dm.surfFitMethod.lower() not in ('lsq', 'proper'):
        raise ValueError('no such method')


def good1__falco__dm__fit_surf_to_act(dm, surfaceToFit):
    check.twoD_array(surfaceToFit, 'surfaceToFit', TypeError)
    if dm.Nact > surfaceToFit.shape[1] or dm.surfFitMethod.lower() not in ('proper', 'lsq'):
        raise ValueError('cannot fit')
