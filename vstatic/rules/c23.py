"""C23: control laws solve the regularised normal equations of the active actuators."""
from ..terms import mk, FALSE
from . import specbased

R = 'equals-reference'
DMS = (1, 2, 8, 9)
DDM = tuple('return.dDM%dV' % k for k in DMS)
V = tuple('mp.dm%d.V' % k for k in DMS)
SYSTEM = ('cvar.GstarG_wsum', 'cvar.RealGstarEab_wsum', 'cvar.EyeGstarGdiag', 'cvar.EyeNorm')
BEST = ('cvar.cMin', 'cvar.Im', 'cvar.log10regUsed')


def serial(a):
    return {mk('attr', a['mp'], 'flagParallel'): FALSE}


PRE = 'falco.ctrl.'
KW = {
    PRE + 'wrapper': {'outs': V + tuple('mp.dm%d.dV' % k for k in DMS) + SYSTEM, 'orch': True},
    PRE + 'init': {'outs': tuple('cvar.DM%dVnom' % k for k in DMS) + ('cvar.uVec', 'cvar.NeleAll', 'cvar.uLegend', 'mp.ctrl.uLegend')},
    PRE + 'wrapup': {'outs': ('return',) + V},
    PRE + '_efc': {'outs': ('return',) + V, 'orch': True},
    PRE + '_ad_efc': {'outs': ('return',) + V, 'orch': True},
    PRE + '_grid_search_efc': {'outs': DDM + BEST + ('cvar.InormVec',), 'orch': True, 'assume': serial},
    PRE + '_planned_efc': {'outs': DDM + BEST + ('cvar.latestBestlog10reg', 'cvar.latestBestDMfac'), 'orch': True},
    PRE + '_planned_ad_efc': {'outs': DDM + BEST + ('cvar.latestBestlog10reg', 'cvar.latestBestDMfac'), 'orch': True},
    PRE + 'apply_spatial_weighting_to_Jacobian': {'outs': ('jacStruct.G1', 'jacStruct.G2', 'jacStruct.G8', 'jacStruct.G9'), 'orch': True},
    PRE + 'cull_weak_actuators': {'outs': tuple('mp.dm%d.%s' % (k, f) for k in DMS for f in ('act_ele', 'Nele')) +
                                  tuple('jacStruct.G%d' % k for k in DMS) + ('cvar.flagCullAct',), 'orch': True},
    PRE + 'set_utu_scale_fac': {'outs': ('mp.ctrl.ad.utu_scale_fac', 'mp.dm1.act_ele', 'mp.dm2.act_ele', 'mp.dm1.Nele', 'mp.dm2.Nele'), 'orch': True},
    PRE + 'efc_schedule_generator': {'outs': ('return',), 'orch': True},
}


def run(ctx, rep):
    rep.rule(R, 'the controllers assemble, solve and distribute the same system as their reference definitions: the sums over the control modes, the regularisation '
                'term, the solution, its parts per mirror, the gain, the schedule and the choice of the best trial command')
    specbased.run_refs(ctx, rep, 'c23', R, 12, **KW)
    rep.floor('calls_matched_with_reference', 20)
    specbased.positives(ctx, rep, 'C23', 'c23', **KW)
    rep.assumptions += ['images and model fields are unknown functions of what the callees read (their own definitions are the subject of other properties)',
                        'exact arithmetic; numpy and scipy entry points have their documented meaning']
