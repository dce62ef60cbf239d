"""Write frames: which parts of their arguments may the functions of the package write (shared by C07 and C01)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
# What the constraint step and the surface rendering record on the mirror that they serve.
MIRROR_STATE = {'V', 'pinned', 'Vpinned', 'dead_map', 'HminStepMethod', 'Vquantized', 'differentiableModel', 'differentiableModelSettings'}


def origin(e):
    n = 0
    while e.chain is not None and n < 30:
        e = e.chain.effect if hasattr(e.chain, 'effect') else e.chain
        n += 1
    return e


def from_mirror_code(e):
    """The write is done by the surface generation or the constraint step (falco.dm) on the mirror given to it."""
    o = origin(e)
    return o.func.qual.startswith('falco.dm.')


def param_writes(f, summary):
    """(param, path, inplace?, effect) of every write of `f` to memory reachable from its parameters."""
    for e in summary.interp.effects:
        if e.kind in ('attr', 'inplace') and e.root.op == 'param' and e.root.a[0] == f.qual:
            yield e.root.a[1], e.path.lstrip('.'), e.kind == 'inplace', e


def absorbed(f, path, e):
    if f.qual.startswith('falco.dm.') or not from_mirror_code(e):
        return False
    n = 0
    while True:
        if path.split('.')[-1].split('[')[0] in MIRROR_STATE:
            return True
        w = e.chain
        if w is None or n > 30:
            return False
        # a store loaded through a loop has lost its path here, the callee still names it
        path = w.path
        e = w.effect if hasattr(w, 'effect') else w
        n += 1


def load_frames():
    with open(os.path.join(HERE, 'frames.json')) as fh:
        return json.load(fh)


def build(ctx):
    """Table generator (used once, the result is reviewed and committed): frames of today's functions."""
    out = {}
    for f in ctx.funcs():
        s = ctx.S.get(f)
        d = {}
        for p, path, inpl, e in param_writes(f, s):
            if p == 'self' or absorbed(f, path, e):
                continue
            k = path + ('!' if inpl else '')
            d.setdefault(p, [])
            if k not in d[p]:
                d[p].append(k)
        if d:
            out[f.qual] = {p: sorted(v) for p, v in d.items()}
    return out


class Frames:
    # objects that exist to be filled: every updater of the module may write what the module's updaters write
    SHARED = {'falco.setup': ('mp',), 'falco.ctrl': ('cvar', 'jacStruct'), 'falco.est': ('ev',), 'falco.wfsc': ('out',)}

    def __init__(self):
        self.t = load_frames()
        self.union = {}
        for q, d in self.t.items():
            m = q.rsplit('.', 1)[0]
            for p in self.SHARED.get(m, ()):
                if p in d:
                    self.union.setdefault((m, p), set()).update(d[p])

    def allowed(self, qual, param):
        d = self.t.get(qual, {})
        if param not in d:
            return set()
        a = set(d[param])
        a |= self.union.get((qual.rsplit('.', 1)[0], param), set())
        return a

    def permits(self, qual, param, path, inplace):
        a = self.allowed(qual, param)
        if not a:
            return False
        if inplace:
            return path + '!' in a or any(x.endswith('!') and path.startswith(x[:-1] + '[') for x in a)
        parts = path.split('.')
        return any('.'.join(parts[:i]) in a for i in range(1, len(parts) + 1))
