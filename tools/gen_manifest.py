#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks; everything in properties.jsonl without a check goes under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = ('Static: the source is parsed and abstractly interpreted (value numbering with gated joins, alias and effect summaries), nothing is executed; '
          'sound only up to the stated assumptions of the engine (third-party call tables, no dynamic code generation)')
CHECKS = {
    'C01': ('interprocedural data-flow of mirror state: value numbering at entry compared with the value at every exit', 'every function that touches a mirror command, mirror list or actuator list'),
    'C02': ('effect and alias analysis of the functions handed to worker pools', 'every task batch found in the call graph'),
    'C07': ('interprocedural write-effect and alias analysis against a table of write frames', 'every function of the package'),
    'C08': ('effect analysis for global and default-argument state, who-may-call rules for ambient sources, taint of clock readings', 'every function and call of the package'),
    'C12': ('definite assignment with correlated branches, name and member resolution, call-signature binding', 'every function and call of the package'),
    'C13': ('comparison of canonical value graphs (value numbering, polynomial normal forms, gated joins) with reference definitions; value flow of mirror commands through the constraint step', 'the constraint step, its defaults and set-up, the neighbour rule, the correction loop and surface generation'),
    'C14': ('loop-carried value systems of the correction loop compared cell by cell with a reference definition', 'the correction loop, the history bookkeeping functions and the history allocation'),
    'C16': ('comparison of canonical value graphs (value numbering, polynomial normal forms, gated joins, loop-carried cells) with reference definitions sharing one optical train', 'the compact and full models, the Jacobian columns of all three coronagraph families, their precomputation and assembly, tied actuators, and the reverse gradient'),
    'C03': ('comparison of canonical values of what is read and multiplied at every site that pairs a wavelength, star or mode with its weight or index (value numbering, polynomial normal forms)', 'every function that loops over wavelengths, stars or Zernike modes, and their weights'),
    'C15': ('comparison of canonical value graphs (value numbering, polynomial normal forms, gated joins) with reference definitions', 'normalisation, spectral weights and summed intensities of every model, image and estimate'),
    'C25': ('comparison of canonical value graphs (value numbering, polynomial normal forms, gated joins, effects of PROPER calls) with reference definitions', 'the mask generators of falco.mask and the segmented apertures'),
    'C17': ('comparison of canonical value graphs (value numbering, polynomial and Fourier-operator normal forms) with reference definitions of the operators', 'every propagation operator and its coordinate axes'),
    'C06': ('comparison of canonical value graphs with reference definitions, differences judged by the axis of the quantities they involve', 'the set-up coordinates, masks, propagations, images, models, Jacobians, probes and mirror surfaces that deal with two axes'),
    'C11': ('comparison of canonical refusal conditions and of selections by name with reference definitions; names compared whole', 'every function that selects by an option, and every entry check of one'),
    'C18': ('typestate of the in-progress flag on every exit, provenance of loader classes, write effects, and comparison with reference definitions', 'the configuration package and the loader classes it creates'),
    'C19': ('resource typestate on exceptional paths; provenance of written paths and conditions of writes', 'every opened file or pool and every write of the package'),
    'C24': ('exception-flow lint over handlers, finally clauses and unraised errors; dropped pure results; comparison of canonical refusal conditions with references', 'every function of the package, and every check of its inputs'),
    'C20': ('comparison of canonical value graphs (value numbering, polynomial normal forms, gated joins) with reference definitions', 'every function that turns mirror commands into surfaces, and its adjoint'),
    'C21': ('comparison of canonical value graphs (value numbering, polynomial normal forms, gated joins) with reference definitions; transposed-operator normal forms', 'every forward and adjoint pair of the differentiable mirror and propagation models'),
    'C22': ('loop-carried value systems of the estimators compared cell by cell with reference definitions (value numbering, polynomial normal forms, gated joins)', 'the estimator selection, perfect and pairwise estimators (least squares and Kalman), probe shapes and probe schedules'),
    'C23': ('comparison of canonical value graphs (value numbering, polynomial normal forms, gated joins, loop-carried cells) with reference definitions', 'every controller of the package, their grid and schedule logic, the control weights and the actuator selection'),
    'C04': ('path-set comparison of the attributes of the first and second mirror: which mirror each store, call and branch reads, plus comparison of canonical value graphs with reference definitions', 'every function that stores to, calls with or branches on one of the two mirrors'),
    'C05': ('provenance analysis of full- and compact-model attributes (value numbering with kept paths) compared with reference definitions', 'every function that reads or stores the two families of attributes'),
    'C09': ('comparison of canonical refusal conditions (path conditions of raises and argument checks) with reference conditions', 'every public function that states requirements on its arguments'),
    'C10': ('abstract interpretation of the argument checks over a domain of kinds of values', 'every helper of falco.check for every kind of value'),
}
NA = {
    'C50': 'the equality of a Jacobian column and a field derivative quantifies over floating-point values; no static argument in reach bounds it (its structural part is C16)',
    'C51': 'energy conservation and inversion to rounding accuracy are numerical statements about matrix products (their structural part is C17)',
    'C52': 'convergence of the closed loop is a statement about the dynamics of computed values',
    'C53': 'transmission, area and edge positions of masks are numerical results of antialiased rendering',
    'C54': 'agreement with Fresnel theory and tabulated indices is numerical',
    'C55': 'exactness of a least-squares or iterative fit is numerical',
    'C56': 'convergence of the estimate in the limit of small noise is an asymptotic numerical statement',
}
PENDING = 'no check that is exact on this codebase has been built for it'
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q vstatic check.py',
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 check.py --property %s' % i,
        'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
        'technique': CHECKS[i][0],
        'level': 'other',
        'level_note': '%s. Covers %s.' % (ENGINE, CHECKS[i][1]),
    } for i in ids if i in CHECKS],
    'not_applicable': [{'property': i, 'reason': NA.get(i, PENDING)} for i in ids if i not in CHECKS],
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
