"""C02: tasks evaluated in parallel share no state that any of them writes."""
from .. import selftest
from ..frames import absorbed, origin
from ..terms import show, walk

R1 = 'task-writes-only-its-own'
R2 = 'task-batches'


def decide(funcs, S, known, emit, ok, count):
    for f in funcs:
        s = S.get(f)
        if s is None or s.error:
            continue
        ip = s.interp
        tasks = {}
        for k in ip.calls:
            if k.task and k.task[-1][2] != 'serial':
                tasks.setdefault(k.task[-1][0], 0)
                tasks[k.task[-1][0]] += 1
        bad = 0
        for e in ip.effects:
            if not e.task or e.task[-1][2] == 'serial':
                continue
            if e.task[-1][2] == 'process':
                count('writes_to_process_copies', 1)      # pickled arguments: nobody else sees the write
                continue
            tasks.setdefault(e.task[-1][0], 0)
            count('writes_in_tasks', 1)
            if e.kind not in ('global', 'nonlocal') and not shared_root(e, ip):
                continue
            if absorbed(f, e.path, e):
                continue
            name = show(e.root)[:60] + (e.path or '')
            bad += 1
            o = origin(e)
            emit(f, '%s task writes %s' % (f.qual, name), e.where(),
                 'a parallel task of %s writes %s, which the other tasks and the caller share (store in %s at %s)'
                 % (f.qual, name, o.func.qual, o.where()))
        for t in tasks:
            count('batches', 1)
        if tasks and not bad:
            ok(f)


def shared_root(e, ip):
    r = e.root
    if r.op in ('param', 'glob', 'ext', 'func', 'class', 'default', 'mod'):
        return True
    if r.op in ('new', 'obj', 'scopy'):
        # allocated before the tasks were started?
        return not allocated_in_task(r, e, ip)
    return r.op not in ('const', 'unk')


def allocated_in_task(r, e, ip):
    return getattr(ip, 'alloc_task', {}).get(r) == e.task or ip.alloc_task.get(r, ())[:len(e.task)] == e.task


def run(ctx, rep):
    rep.rule(R1, 'the function or lambda handed to map/starmap/submit writes, through everything that it calls, only to objects created inside the task '
                 '(shallow copies share what they do not replace)')
    funcs = ctx.judged()
    decide(funcs, ctx.S, ctx.known, lambda f, c, w, m: rep.bad(R1, c, w, m), lambda f: rep.ok(R1, f.qual), rep.count)
    rep.floor('batches', 6)
    found = set()
    _, S = selftest.posrepo()
    decide(selftest.posfuncs('c02'), S, lambda q: False, lambda f, c, w, m: found.add(f.name), lambda f: None, lambda *a: None)
    selftest.expect(rep, 'C02', found, {f.name for f in selftest.posfuncs('c02') if f.name.startswith('bad_')})
    wrong = {n for n in found if n.startswith('good_')}
    if wrong:
        from ..loader import AnalysisBroken
        raise AnalysisBroken('negative examples of C02 reported: %s' % sorted(wrong))
    rep.assumptions += ['bringing the command of a mirror within its constraints writes back the same command when it already satisfies them',
                        'a task-local object is not published through an object that the engine cannot resolve']
