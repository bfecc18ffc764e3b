"""Which proof units decide which property."""
KIN = ['getElemDisp/*', 'calc_bmat_3D/*', 'get_strain*']
MATL = ['get_material/*', 'get_stress*']
ELL = ['ell_set_zero_mat/*', 'ell_add_struct/*', 'ell_set_bc/*', 'ell_init/*']

SOLVER = ['ell_mvp/*', 'solver_residual/*', 'solver_fixed/*', 'solver_null/*']
RHS = ['get_elem_rhs*', 'assembly_rhs/*']
MAT = ['get_ctan_plast_pert/*', 'get_elem_mat*', 'assembly_mat/*']

PROPS = {
    'C01': ['set_displ/*', 'newton_raphson/*', 'solve/*', 'solver_fixed/*', 'assembly_rhs/*', 'assembly_mat/*', 'ell_set_bc/*'],
    'C02': KIN + ['lemma_affine/*'],
    'C03': MATL,
    'C04': ['plastic_step/*', 'get_stress3D/*', 'get_material/3D'],
    'C05': KIN + MATL + RHS + MAT + ['calc_ave_stress/*', 'calc_ave_strain/*', 'calc_fields/*', 'newton_raphson/*', 'solve/*'],
    'C06': KIN + MATL + RHS,
    'C07': ['calc_bmat_3D/*', 'get_elem_rhs*', 'get_ctan_plast_pert/*', 'get_elem_mat*', 'lemma_elastic_tangent/*'] + MATL,
    'C08': ['ell_init/*', 'ell_mvp/*'],
    'C09': ['ell_set_zero_mat/*', 'ell_add_struct/*', 'get_elem_mat*', 'assembly_mat/*'],
    'C10': ['ell_set_bc/*'],
    'C11': SOLVER + ['solve/*'],
    'C12': ['newton_raphson/*', 'solve/*', 'assembly_rhs/*'],
    'C13': KIN + MATL + ['calc_ave_stress/*', 'calc_ave_strain/*', 'calc_fields/*', 'lemma_affine/*'],
    'C14': ['homogenize/*', 'is_linear/*', 'calc_ctan_lin/*', 'set_displ/*', 'newton_raphson/*', 'calc_ave_stress/*'],
    'C15': ['homogenize/*', 'output/*', 'update_vars/*', 'set_macro_strain/*', 'newton_raphson/*', 'calc_ave_stress/*', 'set_displ/*', 'get_stress*', 'get_elem_rhs*', 'get_elem_mat*'],
    'C16': ['set_macro_strain/*', 'get_macro_stress/*', 'get_macro_ctan/*', 'get_nl_flag/*', 'homogenize/*', 'update_vars/*'],
    'C17': ['get_elem_type*', 'get_material/*', 'constructor/*', 'get_stress*', 'get_ctan_plast_pert/*', 'get_elem_mat*'],
    'C18': ['constructor/*', 'calc_ctan_lin/*', 'get_elem_type*', 'ell_init/*'],
    'C19': ['*'],
    'C20': ['write_vtu/*', 'output/*', 'calc_fields/*'],
    'C21': ['wrapper/*'],
    'C22': ['write_info/*', 'constructor/*'],
    'C24': ['newton_step/*', 'solve/*', 'assembly_rhs/*', 'assembly_mat/*'],
    'C23': ['ell_mvp/*', 'solver_residual/*', 'solver_conjugate/*'],
}

TRUSTED = [
    'clang 18 front end (JSON AST of /repo/src/*.cpp, -std=gnu++11)',
    'the obligation generator /verif/mvc (symbolic execution, loop summaries, polynomial normal forms)',
    'z3 4.8 (python bindings) for side conditions',
    'contracts in /verif/mvc/contracts.py state the property as written in properties.jsonl',
]
ASSUME = [
    'double is treated as the mathematical reals (no rounding, overflow or NaN); decimal literals are exact rationals and the Gauss abscissa literal stands for 1/sqrt(3)',
    'int arithmetic does not overflow (grids whose matrix fits the index type)',
    'malloc/calloc succeed; distinct allocations do not alias; argument arrays given by callers do not overlap the cell\'s own arrays',
    'grids have at least two nodes per direction; dim is 2 or 3; material constants are such that no denominator of the elastic law vanishes',
]
# properties that claim only some kinds of obligation of the units they use
KINDS = {'C19': {'in-bounds', 'null-deref', 'use-after-free', 'free', 'leak', 'released', 'requires', 'pre'}}
EXTRA = {
    'C20': ['number formatting by the standard library is not modelled: the contract is over the sequence of values and words streamed; the harness reads the files back'],
    'C22': ['number formatting by the standard library is not modelled: the contract is over the sequence of values and words streamed; the harness reads the files back'],
    'C24': ['newton_step/*', 'solve/*', 'assembly_rhs/*', 'assembly_mat/*'],
    'C23': ['the matrix is symmetric and no inner product p.Ap of a direction vanishes (positive definite); the harness replays it on finite precision'],
}
NOTE = {}
NA = {}
