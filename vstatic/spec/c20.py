"""Reference definitions of the two mirror surface models (C20)."""
import os
from math import sin, cos, radians

import numpy as np
import scipy.signal as ss
from astropy.io import fits
from scipy.interpolate import griddata, RectBivariateSpline
from scipy.ndimage import map_coordinates

import falco
from falco import proper, util, diff_dm


def _oriented(M, name, sense):
    """Actuator grid as it is mounted; the inverse of a pure rotation turns the other way, a mirrored one is its own inverse."""
    if name == 'rot0':
        return M
    elif name == 'rot90':
        return np.rot90(M, sense)
    elif name == 'rot180':
        return np.rot90(M, 2)
    elif name == 'rot270':
        return np.rot90(M, -sense)
    elif name == 'flipxrot0':
        return M[:, ::-1]
    elif name == 'flipxrot90':
        return np.rot90(M[:, ::-1], 1)
    elif name == 'flipxrot180':
        return M[::-1, :]
    elif name == 'flipxrot270':
        return np.rot90(M[:, ::-1], 3)
    else:
        raise ValueError('orientation')


def falco__dm__gen_surf_from_act(dm, dx, Nout):
    if dm.centering == 'interpixel':
        half = -dx / (2 * dm.dm_spacing)
    elif dm.centering == 'pixel':
        half = 0
    else:
        raise ValueError('centering')
    bm = proper.prop_begin(Nout * dx, 1e-6, Nout, 1)
    zyx = hasattr(dm, 'flagZYX') and dm.flagZYX
    dm = falco.dm.enforce_constraints(dm)
    if hasattr(dm, 'HminStep'):
        if not hasattr(dm, 'HminStepMethod'):
            dm.HminStepMethod = 'round'
        dm = falco.dm.discretize_surf(dm, dm.HminStepMethod)
        height = dm.Vquantized * dm.VtoH
    else:
        height = dm.V * dm.VtoH
    if hasattr(dm, 'orientation'):
        height = _oriented(height, dm.orientation.lower(), 1)
    cx = dm.xc - half
    cy = dm.yc - half
    if dm.useDifferentiableModel:
        settings = (dx, Nout, not zyx, cx, cy, dm.dm_spacing, dm.xtilt, dm.ytilt, dm.zrot, dm.inf_sign, dm.inf_fn)
        if getattr(dm, 'differentiableModelSettings', None) != settings:
            if zyx:
                dm.differentiableModel = diff_dm.dm_init_falco_wrapper(dm, dx, Nout, height, cx, cy, spacing=dm.dm_spacing, XTILT=dm.xtilt,
                                                                       YTILT=dm.ytilt, ZTILT=dm.zrot, ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
            else:
                dm.differentiableModel = diff_dm.dm_init_falco_wrapper(dm, dx, Nout, height, cx, cy, spacing=dm.dm_spacing, XTILT=dm.xtilt,
                                                                       YTILT=dm.ytilt, ZTILT=dm.zrot, XYZ=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
            dm.differentiableModelSettings = settings
        else:
            dm.differentiableModel.update(height)
        return dm.differentiableModel.render(Nout=Nout, wfe=False)
    if zyx:
        return falco.dm.propcustom_dm(bm, height, cx, cy, dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, ZYX=True,
                                      inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
    return falco.dm.propcustom_dm(bm, height, cx, cy, dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, XYZ=True,
                                  inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)


def falco__dm__discretize_surf(dm, HminStepMethod):
    n = dm.V * dm.VtoH / dm.HminStep
    name = HminStepMethod.lower()
    if 'round' in name:
        n = np.round(n)
    elif 'floor' in name:
        n = np.floor(n)
    elif 'ceil' in name:
        n = np.ceil(n)
    elif 'fix' in name:
        n = np.fix(n)
    else:
        raise ValueError(name)
    dm.Vquantized = n * dm.HminStep / dm.VtoH
    return dm


def falco__dm__update_gain_map(dm):
    """The gain is the derivative of the height-versus-voltage curve at the total voltage."""
    kind = dm.fitType.lower()
    if kind in ('quadratic', 'poly2'):
        dm.VtoH = dm.p2 + 2 * dm.p1 * (dm.V + dm.biasMap)
    elif kind == 'fourier2':
        u = dm.w * (dm.V + dm.biasMap)
        dm.VtoH = dm.b1 * dm.w * np.cos(u) - dm.a1 * dm.w * np.sin(u) + 2 * dm.b2 * dm.w * np.cos(2 * u) - 2 * dm.a2 * dm.w * np.sin(2 * u)
    elif kind not in ('linear', 'poly1'):
        raise ValueError(kind)
    return dm


def falco__dm__gen_surf_from_poke_cube(dm, model_type):
    if model_type == 'compact':
        N = dm.compact.NdmPad
        nb = dm.compact.Nbox
        cube = dm.compact.inf_datacube
        ll = dm.compact.xy_box_lowerLeft
    elif model_type == 'full':
        N = dm.NdmPad
        nb = dm.Nbox
        cube = dm.inf_datacube
        ll = dm.xy_box_lowerLeft
    else:
        raise ValueError('model_type')
    surf = np.zeros((N, N))
    for k in range(dm.NactTotal):
        if np.sum(np.abs(cube[:, :, k])) > 1e-12:
            cols = np.arange(ll[0, k], ll[0, k] + nb, dtype=int)
            rows = np.arange(ll[1, k], ll[1, k] + nb, dtype=int)
            height = dm.V[np.unravel_index(k, dm.V.shape)] * dm.VtoH[np.unravel_index(k, dm.VtoH.shape)]
            surf[np.ix_(rows, cols)] += height * cube[:, :, k]
    return surf


def falco__dm__propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
    """Actuator heights convolved with the influence function, turned about the beam centre and projected onto the beam grid."""
    if 'ZYX' in kwargs and 'XYZ' in kwargs:
        raise ValueError('rotation order')
    xyz = 'ZYX' not in kwargs
    alpha = (kwargs['XTILT'] if 'XTILT' in kwargs else 0.) * np.pi / 180
    beta = (kwargs['YTILT'] if 'YTILT' in kwargs else 0.) * np.pi / 180
    gamma = (kwargs['ZTILT'] if 'ZTILT' in kwargs else 0.) * np.pi / 180
    z = proper.prop_fits_read(dm_z0) if isinstance(dm_z0, str) else dm_z0
    fn = kwargs['inf_fn'] if 'inf_fn' in kwargs else 'influence_dm5v2.fits'
    sign = 1.
    if 'inf_sign' in kwargs:
        if kwargs['inf_sign'] == '-':
            sign = -1.
        elif kwargs['inf_sign'] != '+':
            raise ValueError('inf_sign')
    n = proper.prop_get_gridsize(wf)
    dxs = proper.prop_get_sampling(wf)
    rbeam = proper.prop_get_beamradius(wf)
    path = os.path.join(os.path.join(os.path.dirname(os.path.realpath(falco.dm.__file__)), 'data'), fn)
    inf = np.squeeze(proper.prop_fits_read(path)) * sign
    head = fits.getheader(path)
    ratio = head['C2CDX_M'] / head['P2PDX_M']
    ppa = round(ratio)
    if np.abs(ppa - ratio) > 1e-8:
        raise ValueError('pixels per actuator')
    if spacing != 0 and 'N_ACT_ACROSS_PUPIL' in kwargs:
        raise ValueError('both')
    if spacing == 0 and 'N_ACT_ACROSS_PUPIL' not in kwargs:
        raise ValueError('neither')
    pitch = 2. * rbeam / int(kwargs['N_ACT_ACROSS_PUPIL']) if 'N_ACT_ACROSS_PUPIL' in kwargs else spacing
    px = head['P2PDX_M'] * pitch / head['C2CDX_M']
    if 'FIT' in kwargs:
        t = (np.arange(5, dtype=np.float64) - 2) * pitch
        if proper.use_cubic_conv:
            ker = proper.prop_cubic_conv(inf.T, t / px + inf.shape[1] // 2, t / px + inf.shape[0] // 2, GRID=True)
        else:
            ker = map_coordinates(inf.T, np.meshgrid(t / px + inf.shape[1] // 2, t / px + inf.shape[0] // 2), order=3, mode='nearest')
        zc = proper.prop_fit_dm(z, ker)[0]
    else:
        zc = z
    nx = z.shape[1]
    ny = z.shape[0]
    first = 9 * ppa + ppa // 2
    nxg = nx * ppa + 2 * 9 * ppa
    nyg = ny * ppa + 2 * 9 * ppa
    pokes = np.zeros([nyg, nxg], dtype=float)
    cols = np.arange(nx, dtype=int) * int(ppa) + int(first)
    rows = np.arange(ny, dtype=int) * int(ppa) + int(first)
    pokes[np.tile(np.vstack(rows), (nx,)), np.tile(cols, (ny, 1))] = zc
    pokes = ss.fftconvolve(pokes, inf, mode='same')
    nxp = int(np.round(np.sqrt(2) * nxg * px / dxs))
    nyp = int(np.round(np.sqrt(2) * nyg * px / dxs))
    if nxp > n:
        nxp = n
    if nyp > n:
        nyp = n
    x = np.ones((nyp, 1)) * ((np.arange(nxp) - nxp // 2) * dxs)
    y = (np.ones((nxp, 1)) * ((np.arange(nyp) - nyp // 2) * dxs)).T
    ca = cos(alpha)
    sa = sin(alpha)
    cb = cos(beta)
    sb = sin(beta)
    cg = cos(gamma)
    sg = sin(gamma)
    # rows of the transposed rotation: images of the x and y axes, in x and y only
    if xyz:
        xx, xy = cb * cg, -cb * sg
        yx, yy = ca * sg + sa * sb * cg, ca * cg - sa * sb * sg
        m = np.array([[xx, xy, sb, 0],
                      [yx, yy, -sa * cb, 0],
                      [sa * sg - ca * sb * cg, sa * cg + ca * sb * sg, ca * cb, 0],
                      [0, 0, 0, 1]])
    else:
        m = np.array([[cb * cg, sa * sb * cg - ca * sg, ca * sb * cg + sa * sg, 0],
                      [cb * sg, sa * sb * sg + ca * cg, ca * sb * sg - sa * cg, 0],
                      [-sb, sa * cb, ca * cb, 0],
                      [0, 0, 0, 1]])
    corners = np.array([[-1.0, -1.0, 0.0, 0.0], [1.0, -1.0, 0.0, 0.0], [1.0, 1.0, 0.0, 0.0], [-1.0, 1.0, 0.0, 0.0]])
    new = np.dot(corners, m)
    dxx = (new[0, 0] - new[1, 0]) / (corners[0, 0] - corners[1, 0])
    dxy = (new[1, 0] - new[2, 0]) / (corners[1, 1] - corners[2, 1])
    dyx = (new[0, 1] - new[1, 1]) / (corners[0, 0] - corners[1, 0])
    dyy = (new[1, 1] - new[2, 1]) / (corners[1, 1] - corners[2, 1])
    u = (x / dxx - y * dxy / (dxx * dyy)) / (1 - dyx * dxy / (dxx * dyy))
    v = (y / dyy - x * dyx / (dxx * dyy)) / (1 - dxy * dyx / (dxx * dyy))
    ux = (u + dm_xc * pitch) / px + first
    vy = (v + dm_yc * pitch) / px + first
    if proper.use_cubic_conv:
        grid = proper.prop_cubic_conv(pokes.T, ux, vy, GRID=False)
        grid = grid.reshape([ux.shape[1], ux.shape[0]])
    else:
        grid = map_coordinates(pokes.T, [ux, vy], order=3, mode='nearest', prefilter=True)
    out = np.zeros([n, n], dtype=np.float64)
    out[n // 2 - nyp // 2:n // 2 - nyp // 2 + grid.shape[1], n // 2 - nxp // 2:n // 2 - nxp // 2 + grid.shape[0]] = grid
    if 'NO_APPLY' not in kwargs:
        proper.prop_add_phase(wf, 2 * out)
    return out


def falco__dm__gen_poke_cube(dm, mp, dx_dm, **kwargs):
    """One influence function per actuator, cut out around the actuator's centre on a grid that holds all of them."""
    if not hasattr(dm, 'flag_hex_array'):
        dm.flag_hex_array = False
    if not hasattr(dm, 'centering'):
        dm.centering = 'pixel'
    if dm.flag_hex_array:
        raise ValueError('hexagonal')
    ax, ay = radians(dm.xtilt), radians(dm.ytilt)
    az = radians(-dm.zrot)
    if hasattr(dm, 'flagZYX') and dm.flagZYX:
        rot = np.array([[cos(ay) * cos(az), -cos(ay) * sin(az), sin(ay), 0.0],
                        [cos(ax) * sin(az) + sin(ax) * sin(ay) * cos(az), cos(ax) * cos(az) - sin(ax) * sin(ay) * sin(az), -sin(ax) * cos(ay), 0.0],
                        [sin(ax) * sin(az) - cos(ax) * sin(ay) * cos(az), sin(ax) * cos(az) + cos(ax) * sin(ay) * sin(az), cos(ax) * cos(ay), 0.0],
                        [0.0, 0.0, 0.0, 1.0]])
    else:
        rot = np.array([[cos(ay) * cos(az), sin(ax) * sin(ay) * cos(az) - cos(ax) * sin(az), cos(ax) * sin(ay) * cos(az) + sin(ax) * sin(az), 0.0],
                        [cos(ay) * sin(az), sin(ax) * sin(ay) * sin(az) + cos(ax) * cos(az), cos(ax) * sin(ay) * sin(az) - sin(ax) * cos(az), 0.0],
                        [-sin(ay), sin(ax) * cos(ay), cos(ax) * cos(ay), 0.0],
                        [0.0, 0.0, 0.0, 1.0]])
    gx, gy = np.meshgrid(np.arange(dm.Nact) - dm.xc, np.arange(dm.Nact) - dm.yc)
    gx = gx.reshape(dm.Nact * dm.Nact)
    gy = gy.reshape(dm.Nact * dm.Nact)
    dm.NactTotal = gx.shape[0]
    index = np.arange(dm.Nact * dm.Nact, dtype=int).reshape((dm.Nact, dm.Nact))
    if hasattr(dm, 'orientation'):
        index = _oriented(index, dm.orientation.lower(), -1)
    cent = np.zeros((2, dm.NactTotal))
    for k, j in enumerate(index.flatten()):
        p = rot @ np.array([gx[j], gy[j], 0., 1.])
        cent[0, k] = p[0]
        cent[1, k] = p[1]
    dm.xy_cent_act = cent

    # influence function seen under the same rotation
    n0 = dm.inf0.shape[0]
    npad = util.ceil_odd(np.sqrt(2.) * n0)
    lo = int(np.ceil(npad / 2.) - np.floor(n0 / 2.) - 1)
    hi = int(np.ceil(npad / 2.) + np.floor(n0 / 2.))
    wide = np.zeros((npad, npad))
    wide[lo:hi, lo:hi] = dm.inf0
    c = np.arange(wide.shape[1]) + 1. - (np.fix(wide.shape[1] / 2.) + 1)
    r = np.arange(wide.shape[0]) + 1. - (np.fix(wide.shape[0] / 2.) + 1)
    X, Y = np.meshgrid(c, r)
    xv = X.reshape(wide.shape[1] * wide.shape[1])
    yv = Y.reshape(wide.shape[0] * wide.shape[0])
    xn = np.zeros(wide.shape[1] * wide.shape[1])
    yn = np.zeros(wide.shape[0] * wide.shape[0])
    for k in range(X.size):
        p = rot @ np.array([xv[k], yv[k], 0., 1.])
        xn[k] = p[0]
        yn[k] = p[1]
    master = griddata((xn, yn), wide.reshape(npad * npad), (X, Y), method='cubic', fill_value=0.)
    lost = 0.
    trim = 0
    while abs(lost) <= 1e-7:
        trim = trim + 2
        lost = np.sum(master) - np.sum(abs(master[int(trim / 2):int(-trim / 2), int(trim / 2):int(-trim / 2)]))
    trim = trim - 2
    n = master.shape[0] - trim
    if trim != 0:
        master = master[int(trim / 2):int(-trim / 2), int(trim / 2):int(-trim / 2)]
    dm.infMaster = master
    x = np.linspace(-(n - 1) / 2, (n - 1) / 2, n) * dm.dx_inf0

    nbox = util.ceil_even(n * dm.dx_inf0 / dx_dm)
    dm.Nbox = nbox
    far = np.max(np.abs(np.array([mp.d_P2_dm1, mp.d_dm1_dm2, (mp.d_P2_dm1 + mp.d_dm1_dm2)])))
    dm.NboxAS = np.max(np.array([nbox, util.ceil_even(np.max(mp.sbp_centers) * far / dx_dm**2)]))
    pitch = dm.dm_spacing / dx_dm
    reach = np.max(np.abs(dm.xy_cent_act.reshape(2 * dm.NactTotal)))
    dm.NdmPad = util.ceil_even(dm.NboxAS + 2.0 * (1 + (reach + 0.5) * pitch))
    dm.act_ele = np.arange(dm.NactTotal)
    if 'NOCUBE' in kwargs and kwargs['NOCUBE']:
        return
    pix = dm.xy_cent_act * pitch
    if dm.centering == 'pixel':
        pix = pix + 0.5
    box = np.round(pix)
    dm.xy_box_lowerLeft = box + (dm.NdmPad - nbox) / 2
    u = np.linspace(-(nbox - 1) / 2., (nbox - 1) / 2., nbox) * dx_dm
    spline = RectBivariateSpline(x, x, dm.infMaster)
    cube = np.zeros((nbox, nbox, dm.NactTotal))
    for k in range(dm.NactTotal):
        cube[:, :, k] = spline(u - (pix[1, k] - box[1, k]) * dx_dm, u - (pix[0, k] - box[0, k]) * dx_dm)
    dm.inf_datacube = cube
