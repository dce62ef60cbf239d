"""C25: every feature of a generated mask is placed with the requested centring, shear, rotation and magnification."""
from . import specbased

R = 'equals-reference'
KW = {}


def run(ctx, rep):
    rep.rule(R, 'the canonical value that a mask generator returns, for every combination of its options, is the one of its reference definition: all features '
                'of one mask share the centring shift, the shears, the rotation and the magnification, horizontal quantities act on columns and vertical ones on rows')
    specbased.run_refs(ctx, rep, 'c25', R, 18, **KW)
    specbased.positives(ctx, rep, 'C25', 'c25', **KW)
    rep.assumptions += ['exact arithmetic; numpy, scipy and PROPER entry points have their documented meaning']
