"""C17: propagation operators follow one fixed set of Fourier conventions."""
from . import specbased

R = 'equals-reference'


def run(ctx, rep):
    rep.rule(R, 'the canonical value that the operator returns, for every combination of its branch conditions, is the one of its reference definition: '
                'mutually conjugate kernels, flux-preserving prefactor, centred axes, angular-spectrum phase, skipped only for zero distance')
    specbased.run_refs(ctx, rep, 'c17', R, 10)
    specbased.positives(ctx, rep, 'C17', 'c17')
    rep.assumptions += ['exact arithmetic: rounding and the order of floating-point operations are not compared',
                        'numpy, scipy and the FFT entry points have their documented meaning']
