"""Reference definitions of the mask generators (C25, C06): every feature of a mask is placed with the same centring, shear, rotation and magnification."""
import math
import numpy as np
from scipy.interpolate import RectBivariateSpline
from scipy.ndimage import rotate
import falco
import falco.proper as proper
from falco.util import ceil_even, ceil_odd, cosd, sind


def _amplitude(wf):
    return np.fft.ifftshift(np.abs(wf.wfarr))


def falco__mask___init_proper(Dmask, dx, centering):
    Narray = ceil_even(Dmask / dx + (0.5 if centering == 'pixel' else 0.0))
    return proper.prop_begin(Narray * dx, 1e-6, Narray, 1.0)


def falco__mask__falco_gen_DM_stop(dx, diamMask, centering):
    wf = falco.mask._init_proper(diamMask, dx, centering)
    shift = -dx / 2 * (centering == 'interpixel')
    proper.prop_circular_aperture(wf, diamMask / 2, shift, shift)
    return _amplitude(wf)


def falco__mask__falco_gen_SW_mask(inputs):
    res, side, centering = inputs['pixresFP'], inputs['whichSide'], inputs.get('centering', 'pixel')
    inner, outer = inputs['rhoInner'], inputs['rhoOuter']
    opening = np.radians(inputs['angDeg'])
    shape = inputs.get('shape', 'circle').lower()
    clock = inputs.get('clockAngDeg', 0)
    fov = inputs.get('FOV', outer)
    xi0, eta0 = inputs.get('xiOffset', 0.), inputs.get('etaOffset', 0.)
    extent = np.max((1, 2 * np.abs(np.cos(np.radians(clock))))) if shape in {'square', 'rect', 'rectangle'} else 1
    fovXi = inputs.get('xiFOV', extent * fov + np.abs(xi0))
    fovEta = inputs.get('etaFOV', extent * fov + np.abs(eta0))
    if centering == 'pixel':
        n1, n2 = ceil_even(2 * (fovXi * res + 1 / 2)), ceil_even(2 * (fovEta * res + 1 / 2))
    elif centering == 'interpixel':
        n1, n2 = ceil_even(2 * fovXi * res), ceil_even(2 * fovEta * res)
    Nxi, Neta = inputs.get('Nxi', n1), inputs.get('Neta', n2)
    if centering == 'pixel':
        xis, etas = np.arange(-Nxi / 2, Nxi / 2) * (1 / res), np.arange(-Neta / 2, Neta / 2) * (1 / res)
    elif centering == 'interpixel':
        xis, etas = np.arange(-(Nxi - 1) / 2, (Nxi + 1) / 2) * (1 / res), np.arange(-(Neta - 1) / 2, (Neta + 1) / 2) * (1 / res)
    X, Y = np.meshgrid(xis, etas)
    X, Y = X - xi0, Y - eta0
    R, Q = np.sqrt(X**2 + Y**2), np.arctan2(Y, X)
    if side in {'r', 'right', 'lr', 'rl', 'leftright', 'rightleft', 'both'}:
        axis = 0
    elif side in {'l', 'left'}:
        axis = np.pi
    elif side in {'t', 'top', 'u', 'up', 'tb', 'bt', 'ud', 'du', 'topbottom', 'bottomtop', 'updown', 'downup'}:
        axis = np.pi / 2
    elif side in {'b', 'bottom', 'd', 'down'}:
        axis = 3 / 2 * np.pi
    else:
        raise ValueError('side')
    axis = axis + np.radians(clock)
    a, b = inner - 13 * np.finfo(float).eps, outer + 13 * np.finfo(float).eps
    u, v = R * np.cos(Q - axis), R * np.sin(Q - axis)
    if shape in {'circle', 'annulus'}:
        region = np.logical_and(R >= a, R <= b)
    elif shape in {'square'}:
        region = np.logical_and(
            np.logical_or(np.logical_and(np.logical_and(np.logical_and(u <= b, u >= -b), v <= b), v >= -b),
                          np.logical_and(np.logical_and(np.logical_and(u >= -b, u <= b), v <= b), v >= -b)), R >= a)
    elif shape in {'rect', 'rectangle'}:
        region = np.logical_or(np.logical_and(np.logical_and(np.logical_and(u >= a, u <= b), v <= b), v >= -b),
                               np.logical_and(np.logical_and(np.logical_and(u <= -a, u >= -b), v <= b), v >= -b))
    elif shape in {'d'}:
        region = np.logical_and(np.logical_or(u >= a, u <= -a), R <= b)
    else:
        raise ValueError('shape')
    mask = np.logical_and(region, np.abs(np.angle(np.exp(1j * (Q - axis)))) <= opening / 2)
    if side in {'both', 'lr', 'rl', 'leftright', 'rightleft', 'tb', 'bt', 'ud', 'du', 'topbottom', 'bottomtop', 'updown', 'downup'}:
        mask = np.logical_or(mask, np.logical_and(region, np.abs(np.angle(np.exp(1j * (Q - (axis + np.pi))))) <= opening / 2))
    return mask, xis, etas


def _focal_grid(inputs, radius, dx):
    """Number of points that holds a focal-plane feature of this radius at its offset."""
    far = np.max(np.array([np.abs(inputs.get('xOffset', 0)), np.abs(inputs.get('yOffset', 0))]))
    if inputs.get('centering', 'pixel') == 'interpixel':
        return ceil_even(2 * radius / dx + 2 * far / dx)
    elif inputs.get('centering', 'pixel') == 'pixel':
        return ceil_even(2 * radius / dx + 2 * far / dx + 1)


def _wedge(wf, L, half, clocking, sign, cx, cy):
    x0 = np.array([0, L * cosd(half), L * cosd(half), -L * cosd(half), -L * cosd(half)])
    y0 = sign * np.array([0, L * sind(half), L, L, L * sind(half)])
    R = np.array([[cosd(clocking), -sind(clocking)], [sind(clocking), cosd(clocking)]])
    for k in range(len(x0)):
        xy = R @ np.array([x0[k], y0[k]]).reshape((2, 1))
        x0[k] = xy[0].item()
        y0[k] = xy[1].item()
    return proper.prop_irregular_polygon(wf, cx + x0, cy + y0, DARK=True)


def falco__mask__gen_bowtie_fpm(inputs):
    ang, res, inner, outer = inputs['ang'], inputs['pixresFPM'], inputs['rhoInner'], inputs['rhoOuter']
    centering, clocking = inputs.get('centering', 'pixel'), inputs.get('clocking', 0)
    dx = 1 / res
    N = _focal_grid(inputs, outer, dx)
    if 'Narray' in inputs:
        N = inputs['Narray']
    shift = -N * dx / 2 / N if centering == 'interpixel' else 0
    wf = proper.prop_begin(2 * res * outer, 1e-6, N, 2 * res * outer / (N * dx))
    proper.prop_set_antialiasing(101)
    cx, cy = shift + inputs.get('xOffset', 0), shift + inputs.get('yOffset', 0)
    proper.prop_circular_aperture(wf, outer, cx, cy)
    spot = proper.prop_ellipse(wf, inner, inner, cx, cy, DARK=True)
    if ang < 180:
        top = _wedge(wf, 2 * outer, ang / 2, clocking, 1, cx, cy)
        bottom = _wedge(wf, 2 * outer, ang / 2, clocking, -1, cx, cy)
    else:
        top = bottom = 1
    return _amplitude(wf) * spot * top * bottom


def falco__mask__falco_gen_bowtie_FPM(inputs):
    return falco.mask.gen_bowtie_fpm(inputs)


def falco__mask__gen_annular_fpm(inputs):
    res, inner, outer = inputs['pixresFPM'], inputs['rhoInner'], inputs['rhoOuter']
    amp = inputs.get('FPMampFac', 0)
    dx = 1 / res
    edge = inner if np.isinf(outer) else outer
    N = _focal_grid(inputs, edge, dx)
    if 'Narray' in inputs:
        N = inputs['Narray']
    shift = -N * dx / 2 / N if inputs.get('centering', 'pixel') == 'interpixel' else 0
    wf = proper.prop_begin(2 * res * edge, 1e-6, N, 2 * res * edge / (N * dx))
    proper.prop_set_antialiasing(101)
    cx, cy = shift + inputs.get('xOffset', 0), shift + inputs.get('yOffset', 0)
    if not np.isinf(outer):
        proper.prop_circular_aperture(wf, outer, cx, cy)
    spot = proper.prop_ellipse(wf, inner, inner, cx, cy, DARK=True) * (1 - amp) + amp
    return _amplitude(wf) * spot


def falco__mask__falco_gen_annular_FPM(inputs):
    return falco.mask.gen_annular_fpm(inputs)


def _side(wf, L, half, clocking, sign, cx, cy):
    y0 = np.array([0., L * sind(half), L * sind(half), -L * sind(half), -L * sind(half), 0.])
    x0 = sign * np.array([0., L * cosd(half), L, L, L * cosd(half), 0.])
    x, y = x0.copy(), y0.copy()
    for k in range(len(x0)):
        xy = np.array([[cosd(clocking), sind(clocking)], [-sind(clocking), cosd(clocking)]]) @ np.array([x0[k], y0[k]]).reshape(2, 1)
        x[k] = xy[0]
        y[k] = xy[1]
    return proper.prop_irregular_polygon(wf, cx + x, cy + y, DARK=True)


def falco__mask__gen_bowtie_lyot_stop(inputs):
    Nbeam, ID, OD, ang = inputs['Nbeam'], inputs['ID'], inputs['OD'], inputs['ang']
    centering = inputs['centering'] if 'centering' in inputs else 'pixel'
    xShear = inputs['xShear'] if 'xShear' in inputs else 0.
    yShear = inputs['yShear'] if 'yShear' in inputs else 0.
    clocking = -inputs['clocking'] if 'clocking' in inputs else 0.
    mag = inputs['magfac'] if 'magfac' in inputs else 1.
    far = np.max(np.abs(np.array([xShear, yShear])))
    dx = 1 / Nbeam
    if centering == 'pixel':
        N = ceil_even(mag * Nbeam + 1 + 2 * Nbeam * far)
    elif centering == 'interpixel':
        N = ceil_even(mag * Nbeam + 2 * Nbeam * far)
    wf = proper.prop_begin(1., 1e-6, N, 1 / (N * dx))
    shift = -dx / 2 if 'interpixel' in centering else 0.
    cx, cy = shift + xShear, shift + yShear
    proper.prop_circular_aperture(wf, OD / 2 * mag, cx, cy)
    proper.prop_circular_obscuration(wf, ID / 2 * mag, cx, cy)
    mask = _amplitude(wf)
    if ang < 180:
        L = 1.1 * (OD / 2 * mag)
        right = _side(wf, L, 90 - ang / 2, clocking, 1, cx, cy)
        left = _side(wf, L, 90 - ang / 2, clocking, -1, cx, cy)
        mask = mask * right * left
    return mask


def falco__mask__falco_gen_bowtie_LS(inputs):
    return falco.mask.gen_bowtie_lyot_stop(inputs)


def _strut(wf, width, length, x0, y0, clock, tilt, cx, cy):
    c = np.array([[cosd(clock), -sind(clock)], [sind(clock), cosd(clock)]]) @ np.array([x0, y0]).reshape((2, 1))
    proper.prop_rectangular_obscuration(wf, width, length, c[0] + cx, c[1] + cy, ROTATION=tilt + clock)


def falco__mask__falco_gen_pupil_LUVOIR_A_final(inputs):
    centering, clock, mag = inputs.get('centering', 'pixel'), inputs.get('clock_deg', 0), inputs.get('magFac', 1)
    xShear, yShear, gap = inputs.get('xShear', 0), inputs.get('yShear', 0), inputs.get('wGap_m', 6.0e-3)
    turned, lyot, Nbeam = inputs.get('flagRot180deg', False), inputs.get('flagLyot', False), inputs['Nbeam']
    if lyot and ('ID' not in inputs or 'OD' not in inputs):
        raise ValueError('ID')
    far = np.max(np.abs(np.array([xShear, yShear])))
    D = 12 * 1.2225 + 11 * gap
    dx = D / Nbeam
    if centering == 'pixel':
        N = 2 + ceil_even((1 + 2 * far) * Nbeam * np.max(np.array([mag, 1])) + 1)
        shift = -dx if turned else 0.
    elif centering == 'interpixel':
        N = 2 + ceil_even((1 + 2 * far) * Nbeam * np.max(np.array([mag, 1])))
        shift = -dx / 2
    flat = mag * 1.2225
    rad = 2 / np.sqrt(3) * flat / 2
    width = inputs['wStrut'] * D if 'wStrut' in inputs else 0.15 * mag
    wf = proper.prop_begin(D, 1e-6, N, Nbeam / N)
    proper.prop_set_antialiasing(33)
    cx, cy = shift + D * xShear, shift + D * yShear
    if not lyot:
        hexes = falco.mask.falco_hex_aperture_LUVOIR_A(wf, 6, rad, flat + mag * gap, cx, cy, DARK=True, ROTATION=clock)
    else:
        hexes = 1
        proper.prop_circular_aperture(wf, mag * (inputs['OD'] / 2) * D, cx, cy)
        proper.prop_circular_obscuration(wf, mag * (inputs['ID'] / 2) * D, cx, cy)
    if width > 0:
        low, long = -11 * np.sqrt(3) / 4 * rad, (np.sqrt(93) + 0.5) * rad
        _strut(wf, width, 7 * flat, 0, mag * D / 4, clock, 0, cx, cy)
        _strut(wf, width, long, 1.5 * rad, low, clock, 12.7, cx, cy)
        _strut(wf, width, long, -1.5 * rad, low, clock, -12.7, cx, cy)
    mask = _amplitude(wf) * hexes
    mask[mask > 1] = 1.
    if turned:
        mask = np.rot90(mask, 2)
    return mask


def falco__mask__falco_gen_pupil_LUVOIR_B(inputs):
    centering, clock, mag = inputs.get('centering', 'pixel'), inputs.get('clock_deg', 0), inputs.get('magFac', 1)
    xShear, yShear, gap = inputs.get('xShear', 0), inputs.get('yShear', 0), inputs.get('wGap_m', 6.0e-3)
    turned = inputs.get('flagRot180deg', False)
    far = np.max(np.abs(np.array([xShear, yShear])))
    Nbeam = 0.96075 * inputs['Nbeam']
    D = 8 * 0.955 + 7 * gap
    dx = D / Nbeam
    if centering == 'pixel':
        N = ceil_even((1 + 2 * far) * 1.02 * Nbeam * np.max(np.array([mag, 1])) + 1)
        shift = -dx if turned else 0
    elif centering == 'interpixel':
        N = ceil_even((1 + 2 * far) * 1.02 * Nbeam * np.max(np.array([mag, 1])))
        shift = -dx / 2
    flat = mag * 0.955
    wf = proper.prop_begin(D, 1e-6, N, Nbeam / N)
    proper.prop_set_antialiasing(33)
    hexes = falco.mask.falco_hex_aperture_LUVOIR_B(wf, 4, 2 / np.sqrt(3) * flat / 2, flat + mag * gap,
                                                   shift + 1 / 0.96075 * D * xShear, shift + 1 / 0.96075 * D * yShear, ROTATION=clock)
    mask = _amplitude(wf) * hexes
    if turned:
        mask = np.rot90(mask, 2)
    return mask


def _honeycomb(wf, rings, rad, sep, xc, yc, angle, missing1, missing2, dark):
    total = np.zeros([wf.ngrid, wf.ngrid], dtype=np.float64)
    k = 0
    for i in range(rings + 1):
        x = sep * i * cosd(30)
        y = sep * (i * cosd(60) - rings)
        for j in range(2 * rings - i + 1):
            if i != 0 or not (j == rings and dark):
                k += 1
                if not any(k == np.array(missing1)):
                    total = total + proper.prop_polygon(wf, 6, rad, xc + x * cosd(angle) - y * sind(angle), yc + x * sind(angle) + y * cosd(angle), ROTATION=angle)
            if i != 0:
                k += 1
                if not any(k == np.array(missing2)):
                    total = total + proper.prop_polygon(wf, 6, rad, xc - x * cosd(angle) - y * sind(angle), yc - x * sind(angle) + y * cosd(angle), ROTATION=angle)
            y += sep
    return total


def falco__mask__falco_hex_aperture_LUVOIR_A(wf, nrings, hexrad, hexsep, xc=0.0, yc=0.0, **kwargs):
    dark = True if 'DARK' in kwargs else False
    return _honeycomb(wf, nrings, hexrad, hexsep, xc, yc, kwargs.get('ROTATION', 0), [1, 12, 113, 114, 125, 126], [1, 12, 113, 114, 125, 126], dark)


def falco__mask__falco_hex_aperture_LUVOIR_B(wf, nrings, hexrad, hexsep, xc=0., yc=0., **kwargs):
    angle = kwargs['ROTATION'] if 'ROTATION' in kwargs else 0.0
    t = angle * np.pi / 180 if 'ROTATION' in kwargs else 0.0
    total = np.zeros([wf.ngrid, wf.ngrid], dtype=np.float64)
    k = 0
    for i in range(0, nrings + 1):
        x = hexsep * np.cos(30 * np.pi / 180) * i
        y = -nrings * hexsep + i * hexsep * 0.5
        for j in range(0, 2 * nrings - i + 1):
            if i != 0 or not (j == nrings and 'DARK' in kwargs):
                k += 1
                if not any(k == np.array([1, 9, 52, 60])):
                    total = total + proper.prop_polygon(wf, 6, hexrad, x * np.cos(t) - y * np.sin(t) + xc, x * np.sin(t) + y * np.cos(t) + yc, ROTATION=angle)
            if i != 0:
                k += 1
                if not any(k == np.array([1, 9, 53, 61])):
                    total = total + proper.prop_polygon(wf, 6, hexrad, -x * np.cos(t) - y * np.sin(t) + xc, -x * np.sin(t) + y * np.cos(t) + yc, ROTATION=angle)
            y += hexsep
    return total


def _ellipse(inputs, d):
    return falco.mask.gen_ellipse({'Nbeam': inputs['Nbeam'], 'Narray': inputs['Npad'], 'radiusX': inputs.get('xStretch', 1.) * 0.5 * d, 'radiusY': 0.5 * d,
                                   'centering': inputs.get('centering', 'pixel'), 'clockingDegrees': inputs.get('clocking', 0.),
                                   'xShear': inputs.get('xShear', 0.), 'yShear': inputs.get('yShear', 0.)})


def falco__mask__falco_gen_pupil_Simple(inputs):
    Nbeam, N, OD, ID = inputs['Nbeam'], inputs['Npad'], inputs['OD'], inputs.get('ID', 0.)
    width, angles = inputs.get('wStrut', 0.), np.atleast_1d(inputs.get('angStrut', []))
    centering, stretch, clocking = inputs.get('centering', 'pixel'), inputs.get('xStretch', 1.), inputs.get('clocking', 0.)
    if not inputs.get('flagHG', False):
        struts = 1
        if angles.size != 0:
            dx = 1 / Nbeam
            if centering == 'pixel':
                shift = 0
            elif centering == 'interpixel':
                shift = -dx / 2
            wf = proper.prop_begin(1.0, 1e-6, N, 1 / (N * dx))
            proper.prop_set_antialiasing(101)
            for k in range(angles.size):
                a = angles[k] + clocking
                proper.prop_rectangular_obscuration(wf, 0.6, width, 0.3 * cosd(a) + shift + inputs.get('xShear', 0.), 0.3 * sind(a) + shift + inputs.get('yShear', 0.), ROTATION=a)
            struts = _amplitude(wf)
        return _ellipse(inputs, OD) * (1 - _ellipse(inputs, ID) if ID > 0 else 1) * struts
    if centering == 'pixel':
        x = np.arange(-N / 2, N / 2)
    elif centering == 'interpixel':
        x = np.arange(-(N - 1) / 2, (N - 1) / 2 + 1)
    U, V = np.meshgrid(x - inputs.get('xShear', 0.) * Nbeam, x - inputs.get('yShear', 0.) * Nbeam)
    R, Q = falco.util.cart2pol((U * cosd(clocking) + V * sind(clocking)) / stretch, V * cosd(clocking) - U * sind(clocking))
    pupil = np.exp(-(R / (Nbeam / 2 * OD))**1000)
    if ID > 0:
        pupil = pupil - np.exp(-(R / (Nbeam / 2 * ID))**1000)
    if width > 0:
        for a in angles:
            pupil = pupil * (1 - np.exp(-(R * np.sin(Q - a * np.pi / 180) / (width * (Nbeam / 2)))**100) * (R * np.cos(Q - a * np.pi / 180) > 0))
    return pupil


def falco__mask__falco_gen_pupil_customHex(inputs):
    N, OD, ID, Nbeam = inputs['Npad'], inputs['OD'], inputs['ID'], inputs['Nbeam']
    X, Y = np.meshgrid(np.arange(-N / 2, N / 2), np.arange(-N / 2, N / 2))
    R, Q = falco.util.cart2pol(X, Y)
    width = inputs['wStrut'] if 'wStrut' in inputs else 0
    inner = dict(inputs, apDia=Nbeam)
    segments = falco.hexsegmirror.get_field(inner) if 'pistons' in inner else falco.hexsegmirror.get_support(inner)
    pupil = np.exp(-(R / (Nbeam / 2 * OD))**1000)
    if ID > 0:
        pupil = pupil - np.exp(-(R / (Nbeam / 2 * ID))**1000)
    pupil = pupil * segments
    if width > 0:
        for a in inputs['angStrut']:
            pupil = pupil * (1 - np.exp(-(R * np.sin(Q - a * np.pi / 180) / (width * Nbeam))**100) * (R * np.cos(Q - a * np.pi / 180) > 0))
    return pupil


def falco__mask__gen_ellipse(inputs):
    return falco.mask.falco_gen_ellipse(inputs)


def falco__mask__falco_gen_ellipse(inputs):
    Nbeam, N, rx, ry = inputs['Nbeam'], inputs['Narray'], inputs['radiusX'], inputs['radiusY']
    centering = inputs['centering'] if 'centering' in inputs else 'pixel'
    t = np.pi / 180 * (inputs['clockingDegrees'] if 'clockingDegrees' in inputs else 0.)
    mag = inputs['magFac'] if 'magFac' in inputs else 1
    if centering == 'pixel':
        s = np.linspace(-N / 2, N / 2 - 1, N) / float(Nbeam)
    elif centering == 'interpixel':
        s = np.linspace(-(N - 1) / 2, (N - 1) / 2, N) / float(Nbeam)
    x = s - (inputs['xShear'] if 'xShear' in inputs else 0.)
    y = s - (inputs['yShear'] if 'yShear' in inputs else 0.)
    X, Y = np.meshgrid(x, y)
    R = 1 / mag * 0.5 * np.sqrt(1 / rx**2 * (np.cos(t) * X + np.sin(t) * Y)**2 + 1 / ry**2 * (np.sin(t) * X - np.cos(t) * Y)**2)
    edge = np.max(np.abs((R[1, 0] - R[0, 0], R[0, 1] - R[0, 0])))
    pupil = -1 * np.ones(R.shape)
    pupil[np.abs(R) < 0.5 - edge] = 1
    pupil[np.abs(R) > 0.5 + edge] = 0
    gray = np.array(np.nonzero(pupil == -1))
    up = np.linspace(-50., 50., 101) * ((x[1] - x[0]) / 101.)
    U, V = np.meshgrid(up, up)
    cell = np.zeros((101, 101))
    for k in range(gray.shape[1]):
        cell = 0 * cell
        A, B = U + X[gray[0, k], gray[1, k]], V + Y[gray[0, k], gray[1, k]]
        r = 1 / mag * 0.5 * np.sqrt(1 / rx**2 * (np.cos(t) * A + np.sin(t) * B)**2 + 1 / ry**2 * (np.sin(t) * A - np.cos(t) * B)**2)
        cell[r <= 0.5] = 1
        pupil[gray[0, k], gray[1, k]] = np.sum(cell) / float(101**2)
    return pupil


def falco__mask__rotate_shift_downsample_pupil_mask(arrayIn, nBeamIn, nBeamOut, xOffset, yOffset, rotDeg):
    if nBeamIn <= nBeamOut:
        raise ValueError('downsampling only')
    if arrayIn.shape[0] % 2 == 0:
        arrayIn = arrayIn[1:, 1:]
    n = arrayIn.shape[0]
    N = ceil_odd(n * (1 / nBeamIn) / (1 / nBeamOut) + 2 + 2 * np.max((np.abs(xOffset), np.abs(yOffset))))
    s = np.arange(-(n - 1) / 2, n / 2, 1) * (1 / nBeamIn)
    X, Y = np.meshgrid(s, s)
    R = np.sqrt(X**2 + Y**2)
    W = 0 * R
    W[R <= 1 / nBeamOut / 2] = 1
    W = W / np.sum(W)
    A = np.real(np.fft.fftshift(np.fft.fft2(np.fft.ifft2(np.fft.ifftshift(W)) * n * (np.fft.ifft2(np.fft.ifftshift(arrayIn)) * n))))
    if not rotDeg == 0:
        A = rotate(A, -rotDeg, reshape=False)
    grid = np.arange(-(N - 1) / 2, N / 2, 1)
    out = np.zeros((N + 1, N + 1))
    out[1:, 1:] = np.real(RectBivariateSpline(s, s, A)((grid - yOffset) * (1 / nBeamOut), (grid - xOffset) * (1 / nBeamOut)))
    return out


def _segment(row, col, flat, shape):
    X, Y = np.meshgrid(np.arange(-shape[1] / 2, shape[1] / 2), np.arange(-shape[0] / 2, shape[0] / 2))
    R, Q = falco.util.cart2pol(X - col, Y - row)
    return (np.exp(-(R * np.sin(Q) / (flat / 2))**1000) * np.exp(-(R * np.cos(Q - np.pi / 6) / (flat / 2))**1000) * np.exp(-(R * np.cos(Q + np.pi / 6) / (flat / 2))**1000))


def falco__hexsegmirror__add_hex(centerRow, centerColumn, hexFlatDiam, arrayIn):
    return arrayIn + _segment(centerRow, centerColumn, hexFlatDiam, arrayIn.shape)


def falco__hexsegmirror__add_hex_segment(centerRow, centerColumn, numRings, apDia, wGap, piston, tiltx, tilty, arrayIn):
    X, Y = np.meshgrid(np.arange(-arrayIn.shape[1] / 2, arrayIn.shape[1] / 2), np.arange(-arrayIn.shape[0] / 2, arrayIn.shape[0] / 2))
    R = np.sqrt((X - centerColumn)**2 + (Y - centerRow)**2)
    Q = np.arctan2(Y - centerRow, X - centerColumn)
    flat = (apDia - numRings * 2 * wGap) / (2 * numRings + 1)
    return arrayIn + np.exp(-(R * np.sin(Q) / (flat / 2))**1000) * np.exp(-(R * np.cos(Q - np.pi / 6) / (flat / 2))**1000) * np.exp(-(R * np.cos(Q + np.pi / 6) / (flat / 2))**1000)
