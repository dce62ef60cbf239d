"""C14: the correction loop runs its steps in order and records each iteration in place."""
from . import specbased

R = 'equals-reference'
I = ('IestScoreHist', 'IestCorrHist', 'IincoScoreHist', 'IincoCorrHist', 'IrawScoreHist', 'IrawCorrHist', 'InormHist')
S = ('normIntMeasCorr', 'normIntMeasScore', 'normIntModCorr', 'normIntModScore', 'normIntUnmodCorr', 'normIntUnmodScore')
H = ('log10regHist', 'serialDate', 'Zsens', 'thput')
D = ('Vpv', 'Spv', 'Srms')
KW = {
    'falco.wfsc.loop': {'orch': True, 'outs': ('mp.dm1.V', 'mp.dm2.V', 'mp.dm_ind', 'mp.thput_vec', 'out.Itr', 'out.complexProjection', 'out.complexCorrelation', 'out.sm',
                                               'out.dm1.Vall', 'out.dm2.Vall', 'out.dm8.Vall', 'out.dm9.Vall')
                        + tuple('out.' + x for x in I + S + H) + tuple('out.dm%d.%s' % (k, x) for k in (1, 2) for x in D)},
    'falco.wfsc.store_dm_command_history': {'outs': tuple('out.dm%d.Vall' % k for k in (1, 2, 5, 8, 9))},
    'falco.wfsc.falco_compute_dm_stats': {'outs': tuple('out.dm%d.%s' % (k, s) for k in (1, 2) for s in D)},
    'falco.wfsc.store_intensities': {'outs': tuple('out.' + x for x in I + S)},
    'falco.setup.init_storage_arrays': {'outs': tuple('return.' + x for x in I + S + H + ('Nitr', 'complexProjection', 'complexCorrelation', 'sm', 'smspectra', 'alpha2', 'EforSpectra'))
                                        + tuple('return.dm%d.%s' % (k, x) for k in (1, 2, 8, 9) for x in D)
                                        + tuple('return.dm%d.Vall' % k for k in (1, 2, 8, 9))
                                        + ('mp.eval.Rsens', 'mp.eval.indsZnoll', 'return.Fend.corr.maskBool', 'return.Fend.score.maskBool', 'return.Fend.scoreInCorr')},
}


def run(ctx, rep):
    rep.rule(R, 'from equal histories, mirror commands and estimates at the head of an iteration, the loop leaves the same version of each at its end as its '
                'reference: same steps on the same versions of their inputs, same slots; the histories are allocated with one slot per iteration, mode and subband')
    specbased.run_refs(ctx, rep, 'c14', R, 5, **KW)
    rep.floor('calls_matched_with_reference', 10)
    specbased.positives(ctx, rep, 'C14', 'c14', **KW)
    rep.assumptions += ['steps that the loop calls are taken as unknown functions of what they read; their own definitions are the subject of other properties',
                        'exact arithmetic; numpy entry points have their documented meaning']
