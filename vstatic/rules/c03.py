"""C03: parallel and serial evaluation compute the same thing."""
from ..terms import mk, TRUE
from .. import specs
from . import specbased, c15, c16, c22, c23

R = 'parallel-equals-serial-reference'


def parallel(a):
    return {mk('attr', a['mp'], 'flagParallel'): TRUE}


def site(mod, qual, inline):
    k = dict((mod.KW if mod else OWN)[qual], assume=parallel)
    if inline:
        k['inline'] = inline
    return k


WORKER = 'worker-equals-reference'
I, M = 'falco.imaging.', 'falco.model.models.'
SITES = (
    ('c15', c15, {I + 'get_sim_sbp_image': (), I + 'get_summed_image': (), 'falco.zern.calc_zern_sens': ()}),
    ('c03', None, {I + 'calc_psf_norm_factor': (I + '_model_full_norm_wrapper',), M + 'jacobian': (),
                   'falco.est.perfect': ('falco.est._est_perfect_Efield_with_Zernikes_in_parallel',), 'falco.ctrl._grid_search_efc': ()}),
)
OWN = {'falco.est.perfect': c22.KW['falco.est.perfect'], 'falco.ctrl._grid_search_efc': c23.KW['falco.ctrl._grid_search_efc'],
       I + 'calc_psf_norm_factor': {'orch': True, 'outs': ('mp.Fend.full.I00',)},
       M + 'jacobian': {'orch': True, 'outs': ('return.G1', 'return.G2')}}
WORKERS = (
    ('c15', c15, (I + '_get_single_sim_full_image', I + '_get_subband_image_component', I + '_model_full_norm_wrapper',
                  'falco.zern.falco_get_single_sim_Efield_LamPol', 'falco.zern.falco_get_single_sim_Efield_LamPolZern')),
    ('c16', c16, (M + '_jac_middle_layer',)),
    ('c23', c23, ('falco.ctrl._efc', 'falco.ctrl._ad_efc')),
)


def run(ctx, rep):
    rep.rule(R, 'with parallel evaluation switched on, each function that offers it equals the reference definition that C15, C16, C22 and C23 hold its serial branch '
                'to (or that reference with its loops flattened into the list of cases): same cases, same arguments, same weights, same places')
    rep.rule(WORKER, 'the functions handed to the workers equal their reference definitions')
    for name, mod, quals in SITES:
        refs = specs.specs_of(ctx, name)
        for q, inline in quals.items():
            specs.decide(ctx, rep, R, q, refs[q], **site(mod, q, inline))
    for name, mod, quals in WORKERS:
        refs = specs.specs_of(ctx, name)
        for q in quals:
            specs.decide(ctx, rep, WORKER, q, refs[q], **mod.KW[q])
    rep.floor('reference_comparisons', 15)
    specbased.positives(ctx, rep, 'C03', 'c03', **{q: site(None, q, ()) for q in OWN})
    rep.assumptions += ['a pool returns the results of map and starmap in the order of the arguments (documented); what the tasks share is the subject of C02']
