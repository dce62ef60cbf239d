"""C20: the mirror's actuator-by-actuator and convolution surface models, and their gains, follow one definition."""
from . import specbased

R = 'equals-reference'
KW = {
    'falco.dm.gen_surf_from_act': {'outs': ('return', 'dm.V', 'dm.Vquantized')},
    'falco.dm.discretize_surf': {'outs': ('return', 'dm.Vquantized')},
    'falco.dm.propcustom_dm': {'refuses': False},
    'falco.dm.update_gain_map': {'outs': ('dm.VtoH',)},
    'falco.dm.gen_poke_cube': {'outs': ('dm.xy_cent_act', 'dm.infMaster', 'dm.Nbox', 'dm.NboxAS', 'dm.NdmPad', 'dm.act_ele', 'dm.xy_box_lowerLeft',
                                        'dm.inf_datacube', 'dm.NactTotal')},
}


def run(ctx, rep):
    rep.rule(R, 'the canonical value that the surface model computes, for every combination of its branch conditions, is the one of its reference '
                'definition: quantised constrained heights, orientation, rotation, actuator centres, influence-function grid and gains')
    specbased.run_refs(ctx, rep, 'c20', R, 6, **KW)
    specbased.positives(ctx, rep, 'C20', 'c20', **KW)
    rep.assumptions += ['exact arithmetic: rounding and the order of floating-point operations are not compared',
                        'numpy, scipy, astropy and PROPER entry points have their documented meaning']
