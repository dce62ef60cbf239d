"""C22: probe data enter the estimator with the right sign and pairing."""
from ..terms import mk, FALSE
from . import specbased

R = 'equals-reference'
EV = tuple('ev.' + a for a in ('imageArray', 'Eest', 'IincoEst', 'Im', 'IprobedMean', 'dm1.Vall', 'dm2.Vall', 'ampSqMean', 'ampNorm'))


def serial(a):
    return {mk('attr', a['mp'], 'flagParallel'): FALSE}


KW = {
    'falco.est.perfect': {'outs': ('ev.imageArray', 'ev.Eest', 'ev.IincoEst', 'mp.full.polaxis'), 'orch': True, 'assume': serial},
    'falco.est.wrapper': {'outs': ('ev.Im', 'ev.Eest'), 'orch': True},
    'falco.est.pairwise_probing': {'outs': EV + ('mp.dm1.V', 'mp.dm2.V', 'mp.dm_ind'), 'orch': True},
}
KW['falco.est.gen_pairwise_probe_square'] = {}
KW['falco.est.gen_pairwise_probe'] = {}


def run(ctx, rep):
    rep.rule(R, 'the estimators leave, for equal images and model fields, the same estimates, incoherent intensities, image and command stacks as their reference '
                'definitions: loop by loop, every array that a loop fills starts equal and receives equal values at equal places')
    specbased.run_refs(ctx, rep, 'c22', R, 5, **KW)
    rep.floor('calls_matched_with_reference', 8)
    specbased.positives(ctx, rep, 'C22', 'c22', **KW)
    rep.assumptions += ['images and model fields are unknown functions of what the callees read (their own definitions are the subject of other properties)',
                        'exact arithmetic; numpy entry points have their documented meaning']
