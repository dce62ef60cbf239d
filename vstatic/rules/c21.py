"""C21: the back-propagation of the differentiable mirror model is the adjoint of its rendering, step by step."""
from . import specbased

R = 'equals-reference'
KW = {
    'falco.diff_dm.dm_init_falco_wrapper': {'outs': ('return.tf', 'return.actuators', 'return.poke_arr', 'return.needs_rot', 'return.upsample', 'return.NoutDefault', 'return.projx', 'return.invprojy'),
                                               'inline': ('falco.diff_dm.DM.__init__', 'falco.diff_dm.DM.update')},
    'falco.diff_dm.DM.__init__': {'outs': tuple('self.' + x for x in ('ifn', 'NoutDefault', 'obliquity', 'upsample', 'actuators', 'poke_arr', 'ixx', 'iyy', 'needs_rot', 'projx',
                                                                    'projy', 'invprojx', 'invprojy', 'projarea', 'tf'))},
    'falco.diff_dm.DM.update': {'outs': ('self.actuators', 'self.poke_arr')},
    'falco.diff_dm.DM.render': {'outs': ('return', 'self.Nintermediate')},
}


def run(ctx, rep):
    rep.rule(R, 'the canonical value that each step of the rendering, of its back-propagation and of their set-up computes is the one of its reference '
                'definition; the references of the two directions are adjoint step by step and in reverse order')
    specbased.run_refs(ctx, rep, 'c21', R, 14, **KW)
    specbased.positives(ctx, rep, 'C21', 'c21', **KW)
    rep.assumptions += ['exact arithmetic: rounding and the order of floating-point operations are not compared',
                        'resampling on coordinates is taken as exact interpolation: its adjoint is the inverse mapping times the area ratio',
                        'numpy, scipy and the FFT entry points have their documented meaning']
