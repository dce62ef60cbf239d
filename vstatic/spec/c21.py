"""Reference definitions of the differentiable mirror model (C21)."""
import os

import numpy as np
from astropy.io import fits
from scipy import ndimage

import falco
from falco import diff_dm, fftutils, proper, util


def falco__diff_dm__dm_init_falco_wrapper(dm, dx, Narray, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
    """Same geometry as the convolution model: dm_xc, dm_yc is the actuator on the optical axis, x to the right and y up."""
    if 'ZYX' in kwargs and 'XYZ' in kwargs:
        raise ValueError('rotation order')
    z = proper.prop_fits_read(dm_z0) if isinstance(dm_z0, str) else dm_z0
    fn = kwargs['inf_fn'] if 'inf_fn' in kwargs else 'influence_dm5v2.fits'
    sign = 1.
    if 'inf_sign' in kwargs:
        if kwargs['inf_sign'] == '-':
            sign = -1.
        elif kwargs['inf_sign'] != '+':
            raise ValueError('inf_sign')
    path = os.path.join(os.path.join(os.path.dirname(os.path.realpath(diff_dm.__file__)), 'data'), fn)
    inf = np.squeeze(proper.prop_fits_read(path)) * sign
    head = fits.getheader(path)
    ratio = head['C2CDX_M'] / head['P2PDX_M']
    ppa = round(ratio)
    if np.abs(ppa - ratio) > 1e-8:
        raise ValueError('pixels per actuator')
    if spacing != 0 and 'N_ACT_ACROSS_PUPIL' in kwargs:
        raise ValueError('both')
    if spacing == 0 and 'N_ACT_ACROSS_PUPIL' not in kwargs:
        raise ValueError('neither')
    pitch = (Narray * dx) / int(kwargs['N_ACT_ACROSS_PUPIL']) if 'N_ACT_ACROSS_PUPIL' in kwargs else spacing
    px = head['P2PDX_M'] * pitch / head['C2CDX_M']
    n = z.shape[1] * ppa + 2 * 9 * ppa
    middle = (dm.Nact - 1) / 2
    xt = kwargs['XTILT'] if 'XTILT' in kwargs else 0.
    yt = kwargs['YTILT'] if 'YTILT' in kwargs else 0.
    zt = kwargs['ZTILT'] if 'ZTILT' in kwargs else 0.
    order = 'zyx' if 'ZYX' in kwargs else 'xyz'
    model = diff_dm.DM(util.pad_crop(inf, int(n)), NoutDefault=Narray, Nact=dm.Nact, sep=ppa, upsample=px / dx,
                       shift=((middle - dm_xc) * ppa, (middle - dm_yc) * ppa), rot=(-zt, yt, xt), rot_order=order)
    model.update(z)
    return model


def falco__diff_dm__make_rotation_matrix(angles_zyx, use_zyx_order=True, radians=False):
    full = np.zeros(3)
    full[:len(angles_zyx)] = angles_zyx
    if not radians:
        full = np.radians(full)
    g, b, a = full
    X = np.asarray([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
    Y = np.asarray([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
    Z = np.asarray([[np.cos(g), -np.sin(g), 0], [np.sin(g), np.cos(g), 0], [0, 0, 1]])
    if not use_zyx_order:
        return Z @ Y @ X
    return X @ Y @ Z


def falco__diff_dm__prepare_fwd_reverse_projection_coordinates(shape, rot, use_zyx_order=True):
    """Coordinates looked up when projecting, and those looked up when projecting back: inverse of each other, about the array centre."""
    turn = diff_dm.promote_3d_transformation_to_homography(diff_dm.make_rotation_matrix(rot, use_zyx_order))
    cy, cx = [(s) / 2 for s in shape]
    there = diff_dm.make_homomorphic_translation_matrix(-cx, -cy)
    back = diff_dm.make_homomorphic_translation_matrix(cx, cy)
    M = diff_dm.drop_z_3d_transformation(back @ (turn @ there))
    y, x = [np.arange(s, dtype=np.float64) for s in shape]
    X, Y = np.meshgrid(x, y)
    fwd = diff_dm.apply_homography(np.linalg.inv(M), X, Y)
    rev = diff_dm.apply_homography(M, X, Y)
    return (fwd[0], fwd[1]), (rev[0], rev[1])


def falco__diff_dm__promote_3d_transformation_to_homography(M):
    out = np.zeros((4, 4), dtype=np.float64)
    out[:3, :3] = M
    out[3, 3] = 1
    return out


def falco__diff_dm__make_homomorphic_translation_matrix(tx=0, ty=0, tz=0):
    out = np.eye(4, dtype=np.float64)
    out[0, -1] = tx
    out[1, -1] = ty
    out[2, -1] = tz
    return out


def falco__diff_dm__drop_z_3d_transformation(M):
    keep = [0, 1, 3]
    return np.ascontiguousarray(M[keep][:, keep])


def falco__diff_dm__pack_xy_to_homographic_points(x, y):
    out = np.empty((3, x.size), dtype=x.dtype)
    out[0, :] = x.ravel()
    out[1, :] = y.ravel()
    out[2, :] = 1
    return out


def falco__diff_dm__warp(img, xnew, ynew):
    return ndimage.map_coordinates(img, (ynew, xnew))


def falco__diff_dm__apply_homography(M, x, y):
    a, b, w = M @ diff_dm.pack_xy_to_homographic_points(x, y)
    a = a / w
    b = b / w
    if x.ndim > 1:
        return np.reshape(a, x.shape), np.reshape(b, x.shape)
    return a, b


def falco__diff_dm__apply_precomputed_transfer_function(arr, tf):
    return fftutils.fftshift(fftutils.ifft2(fftutils.fft2(arr) * tf).real)


def falco__diff_dm__prepare_actuator_lattice(shape, Nact, sep, dtype):
    """Lattice centred on the centre sample (FFT sense): half a pitch to the side when the number of actuators is even."""
    cy, cx = [s // 2 for s in shape]
    nx, ny = Nact
    px, py = sep
    hx = px // 2 if nx % 2 == 0 else 0
    hy = py // 2 if ny % 2 == 0 else 0
    x0 = cx - nx // 2 * px + hx
    y0 = cy - ny // 2 * py + hy
    return {'actuators': np.zeros(Nact, dtype=dtype), 'poke_arr': np.zeros(shape, dtype=dtype),
            'ixx': slice(x0, x0 + nx * px, px), 'iyy': slice(y0, y0 + ny * py, py)}


def _matrices(shape, zoom):
    if isinstance(zoom, (float, int)):
        zoom = (zoom, zoom)
    elif not isinstance(zoom, tuple):
        zoom = tuple(float(z) for z in zoom)
    rows, cols = shape
    M = int(np.round(rows * zoom[0]))
    N = int(np.round(cols * zoom[1]))
    Mx, My = diff_dm.setup_mft_matricies_scalars((M, N), shape, cols * zoom[1] / N, rows * zoom[0] / M)
    return Mx, My, np.sqrt(zoom[0] * zoom[1])


def falco__diff_dm__fourier_resample(f, zoom):
    if zoom == 1:
        return f
    Mx, My, s = _matrices(f.shape, zoom)
    F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f), norm='ortho'))
    return s * diff_dm.imft2_core(F, Mx, My).real


def falco__diff_dm__fourier_resample_backprop(fbar, zoom, shape):
    """Adjoint of fourier_resample, step by step."""
    if zoom == 1:
        return fbar
    Mx, My, s = _matrices(shape, zoom)
    F = diff_dm.mft2_core(fbar, Mx, My)
    return s * fftutils.fftshift(fftutils.ifft2(fftutils.ifftshift(F), norm='ortho')).real


def falco__diff_dm__mft2_core(a, Mx, My):
    return My @ a @ Mx


def falco__diff_dm__imft2_core(A, Mx, My):
    """Adjoint of mft2_core."""
    return np.conj(My).T @ A @ np.conj(Mx).T


def falco__diff_dm__setup_mft_matricies_scalars(shape_space, shape_frequency, zoomx, zoomy):
    dy = shape_space[0] * zoomy
    dx = shape_space[1] * zoomx
    y = util.create_axis(shape_space[0], 1)
    x = util.create_axis(shape_space[1], 1)
    fy = util.create_axis(shape_frequency[0], 1 / dy)
    fx = util.create_axis(shape_frequency[1], 1 / dx)
    return np.exp(-2j * np.pi * np.outer(x, fx)) * np.sqrt(1 / dx), np.exp(-2j * np.pi * np.outer(y, fy).T) * np.sqrt(1 / dy)


def falco__diff_dm__forward_ft_unit(dx, samples, shift=True):
    f = fftutils.fftfreq(samples, dx)
    return fftutils.fftshift(f) if shift else f


def falco__diff_dm__DM__update(self, actuators):
    self.actuators[:] = actuators[:]
    self.poke_arr[self.iyy, self.ixx] = self.actuators


def falco__diff_dm__DM__render(self, Nout=None, wfe=True):
    """Spread, project, (double), resample, crop."""
    n = self.NoutDefault if Nout is None else Nout
    if isinstance(n, int):
        n = (n, n)
    s = diff_dm.apply_precomputed_transfer_function(self.poke_arr, self.tf)
    if self.needs_rot:
        s = diff_dm.warp(s, self.projx, self.projy)
    if wfe:
        s = s * (2 * self.obliquity)
    if self.upsample != 1:
        s = diff_dm.fourier_resample(s, self.upsample)
    self.Nintermediate = s.shape
    return util.pad_crop(s, n)


def falco__diff_dm__DM__render_backprop(self, protograd, wfe=True):
    """The adjoint of each step of the rendering, last step first."""
    g = util.pad_crop(protograd, self.Nintermediate)
    if self.upsample != 1:
        g = diff_dm.fourier_resample_backprop(g, self.upsample, self.ifn.shape)
    if wfe:
        g = g * 2 * self.obliquity
    if self.needs_rot:
        g = diff_dm.warp(g, self.invprojx, self.invprojy) * self.projarea
    return diff_dm.apply_precomputed_transfer_function(g, np.conj(self.tf))[self.iyy, self.ixx]


def falco__diff_dm__DM____init__(self, ifn, NoutDefault, Nact=50, sep=10, shift=(0, 0), rot=(0, 0, 0), upsample=1, rot_order='zyx'):
    if isinstance(NoutDefault, int):
        NoutDefault = (NoutDefault, NoutDefault)
    if isinstance(Nact, int):
        Nact = (Nact, Nact)
    if isinstance(sep, int):
        sep = (sep, sep)
    self.ifn = ifn
    self.NoutDefault = NoutDefault
    self.obliquity = np.cos(np.radians(np.linalg.norm(rot)))
    self.upsample = upsample
    lattice = diff_dm.prepare_actuator_lattice(ifn.shape, Nact, sep, dtype=ifn.dtype)
    self.actuators = lattice['actuators']
    self.poke_arr = lattice['poke_arr']
    self.ixx = lattice['ixx']
    self.iyy = lattice['iyy']
    if np.allclose(rot, [0, 0, 0]):
        self.needs_rot = False
        self.projx = None
        self.projy = None
        self.invprojx = None
        self.invprojy = None
    else:
        self.needs_rot = True
        if rot_order == 'zyx':
            zyx = True
        elif rot_order == 'xyz':
            zyx = False
        else:
            raise ValueError('rot_order')
        there, back = diff_dm.prepare_fwd_reverse_projection_coordinates(ifn.shape, rot, zyx)
        self.projx, self.projy = there
        self.invprojx, self.invprojy = back
        self.projarea = abs(np.linalg.det(diff_dm.make_rotation_matrix(rot, zyx)[:2, :2]))
    tf = fftutils.fft2(ifn)
    if shift[0] != 0 or shift[1] != 0:
        fy, fx = [diff_dm.forward_ft_unit(1, n, shift=False) for n in ifn.shape]
        rx = np.broadcast_to(np.exp(-2j * np.pi * fx * shift[0]), ifn.shape)
        ry = np.broadcast_to(np.exp(-2j * np.pi * fy * shift[1]), tuple(reversed(ifn.shape))).T
        tf = tf * rx * ry
    self.tf = tf
