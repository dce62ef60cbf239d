"""C07: computing functions never alter what their caller passed in, nor hand out live references."""
from ..frames import Frames, param_writes, absorbed, origin
from .. import selftest

R1 = 'argument-unchanged'
R2 = 'returns-fresh'
# functions that pass an argument through by design, confirmed by reading
ALIAS_OK = {
    'falco.config.Object.Object.__getattr__': 'attribute access',
    'falco.diff_dm.drop_z_3d_transformation': 'scalar elements of a 3x3 matrix',
    'falco.diff_dm.fourier_resample': 'resampling by one is the identity',
    'falco.diff_dm.fourier_resample_backprop': 'the adjoint of the identity is the identity',
    'falco.dm.discretize_surf': 'updates and returns the mirror it is given',
    'falco.dm.enforce_constraints': 'updates and returns the mirror it is given',
    'falco.dm.update_gain_map': 'updates and returns the mirror it is given',
    'falco.dm.resample_inf_func': 'nothing to resample',
    'falco.est.perfect': 'returns the estimate object that it fills',
    'falco.est.wrapper': 'fills the estimate object',
    'falco.est.pairwise_probing': 'fills the estimate object',
    'falco.model.models._get_compact_hlc_fpm': 'selects the mask slice, private to the models',
    'falco.prop.ptp': 'zero distance is the identity',
    'falco.prop.relay': 'an even number of relays is the identity',
    'falco.util._spec_arg': 'selects one of its arguments',
}


def decide(funcs, S, frames, known, emit, emit_ok, emit_alias, undecided):
    for f in funcs:
        s = S.get(f)
        if s is None or s.error:
            undecided(f, s.error if s is not None else 'recursive')
            continue
        seen = set()
        nbad = 0
        for p, path, inpl, e in param_writes(f, s):
            if p == 'self' or absorbed(f, path, e):
                continue
            k = (p, path, inpl)
            if k in seen:
                continue
            seen.add(k)
            if frames.permits(f.qual, p, path, inpl) or (inpl and path.split('.')[-1] == 'V' and frames.permits(f.qual, p, path, False)):
                continue
            how = e.how or ''
            if how.startswith('via '):
                q = how[4:]
                # a judged callee that may not do this write is reported itself, once
                if known(q) and not callee_may(frames, q, e):
                    continue
            nbad += 1
            o = origin(e)
            emit(f, p, path, inpl, e, o)
        emit_ok(f, nbad)
        if s.ret_alias:
            emit_alias(f, s.ret_alias)


def callee_may(frames, q, e):
    ch = e.chain
    w = getattr(ch, 'param', None)
    if w is None:
        return True
    path = ch.path.lstrip('.')
    inpl = ch.kind == 'inplace'
    last = path.split('.')[-1].split('[')[0]
    from ..frames import MIRROR_STATE, from_mirror_code
    if last in MIRROR_STATE and from_mirror_code(ch.effect):
        return True
    return frames.permits(q, w, path, inpl) or (inpl and last == 'V' and frames.permits(q, w, path, False))


def run(ctx, rep):
    rep.rule(R1, 'every write to memory reachable from a parameter (attributes, elements, in-place operators, mutating calls, through views, '
                 'aliases, containers and callees) lies in the write frame of that function; functions without a frame write nothing')
    rep.rule(R2, 'the returned value shares no memory with an argument, except for the listed pass-through operators')
    frames = Frames()
    funcs = ctx.funcs()

    def emit(f, p, path, inpl, e, o):
        w = '%s%s%s' % (p, '.' + path if path else '', ' (in place)' if inpl else '')
        rep.bad(R1, '%s writes %s' % (f.qual, w), e.where(),
                '%s alters %s of its caller (%s at %s)' % (f.qual, w, 'store' if o is e else 'store in ' + o.func.qual, o.where()))

    def emit_ok(f, nbad):
        if not nbad:
            rep.ok(R1, f.qual)

    def emit_alias(f, al):
        if f.qual in ALIAS_OK or f.qual.startswith('falco.check.'):
            return
        for p, path in al:
            rep.bad(R2, '%s returns %s%s' % (f.qual, p, ''.join('.' + x for x in path)), f.where,
                    '%s may return a live reference to %s%s of its caller' % (f.qual, p, ''.join('.' + x for x in path)))
    decide(funcs, ctx.S, frames, ctx.known, emit, emit_ok, emit_alias,
           lambda f, why: rep.undecided_at(R1, f.qual, why))
    for f in funcs:
        if not ctx.S.get(f).ret_alias:
            rep.ok(R2, f.qual)
    rep.count('functions', len(funcs))
    rep.floor('functions', 200)
    rep.count('writes_examined', sum(len(list(param_writes(f, ctx.S.get(f)))) for f in funcs))
    rep.floor('writes_examined', 500)
    # positive examples
    _, S = selftest.posrepo()
    found = set()
    decide(selftest.posfuncs('c07'), S, frames, lambda q: False, lambda f, *a: found.add(f.name), lambda *a: None,
           lambda f, al: found.add(f.name), lambda f, w: None)
    selftest.expect(rep, 'C07', found, {'inplace_argument', 'through_view', 'through_loop_element', 'sorts_list', 'dict_default',
                                        '_helper', 'via_helper', 'live_reference'})
    rep.assumptions += ['arguments do not overlap with each other in memory unless the code makes them alias',
                        'calls into numpy/scipy/astropy/proper write only to the arguments named in the engine tables',
                        'bringing the command of a mirror within its constraints (falco.dm.enforce_constraints) is not counted as alteration']
