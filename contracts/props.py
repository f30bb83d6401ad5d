"""Which contracts and stand-ins decide which property."""
PROPS = {}


def setup(C):
    pass


def prop(pid, functions, level='proof', e2e=None, public=(), **kw):
    PROPS[pid] = dict(functions=functions, level=level, e2e=e2e or {}, public=public, **kw)


prop('C05', ['sparseMV', 'sparseMtVm', 'vadd', 'vsubscale', 'norm2', 'norminf', 'eddot', 'spla_cumsum', 'pinv'], e2e={'sparsetools': 3000})
SPARSE = ['sparseMV', 'sparseMtVm', 'vadd', 'vsubscale', 'norm2', 'norminf', 'eddot']
prop('C01', ['checkExitConditions', 'computeResiduals', 'updateStatistics', 'backscale'], e2e={'certificates': 2400, 'solvable': 120})
prop('C02', ['checkExitConditions', 'updateStatistics', 'computeResiduals', 'backscale'], e2e={'infeasible': 3000, 'solvable': 120})
prop('C03', ['compareStatistics', 'saveIterateAsBest', 'restoreBestIterate', 'computeResiduals', 'updateStatistics'], e2e={'bestiterate': 3000})
EQUIL = ['max_rows', 'max_cols', 'sum_sq_rows', 'sum_sq_cols', 'equilibrate_rows', 'equilibrate_cols', 'restore', 'unset_equilibration']
prop('C04', ['backscale', 'use_ruiz_equilibration', 'set_equilibration'] + EQUIL, e2e={'userdata': 3000})
prop('C08', ['socres', 'bring2cone', 'unitInitialization', 'scale', 'scale2add', 'unscale', 'conicProduct', 'conicDivision', 'unstretch'])
prop('C11', ['ECOS_updateData', 'set_equilibration', 'unset_equilibration', 'ecos_updateDataEntry_h', 'ecos_updateDataEntry_c'], e2e={'update': 3000})
# every other function under contract: array bounds, loop summaries and the preconditions of calls are discharged here as well
MEMORY = ['spla_cumsum', 'pinv', 'checkExitConditions', 'computeResiduals', 'updateStatistics', 'backscale', 'compareStatistics', 'saveIterateAsBest', 'restoreBestIterate', 'RHS_affine', 'RHS_combined',
          'max_rows', 'max_cols', 'sum_sq_rows', 'sum_sq_cols', 'equilibrate_rows', 'equilibrate_cols', 'restore', 'unset_equilibration', 'set_equilibration', 'ECOS_updateData',
          'ecos_updateDataEntry_h', 'ecos_updateDataEntry_c', 'socres', 'bring2cone', 'unitInitialization', 'scale', 'unscale', 'conicProduct', 'conicDivision', 'unstretch', 'kkt_init', 'kkt_update',
          'evalExpGradient', 'evalExpHessian', 'evalBarrierValue', 'evalSymmetricBarrierValue', 'expConeLineSearch', 'scaleToAddExpcone', 'evalExpPrimalFeas', 'evalExpDualFeas', 'ldl_l_lsolve', 'ldl_l_lsolve2', 'ldl_l_dsolve', 'ldl_l_ltsolve',
          'branch', 'get_next_node', 'get_global_L', 'store_solution', 'load_solution', 'initialize_root', 'get_branch_var_most_infeasible', 'check_infeasible_bool_var', 'check_infeasible_int_var',
          'is_reliable', 'set_pseudocost_psi', 'avg_pseudocost', 'contains', 'position', 'set_prob', 'updateDataEntry_h', 'updateDataEntry_c']
prop('C12', SPARSE, memory=MEMORY, e2e={'keepvars': 3000, 'bbmemory': 2000})
prop('C15', ['checkExitConditions'], e2e={'limits': 2000, 'repeat': 600})
EXPO = ['evalExpGradient', 'evalExpHessian', 'evalBarrierValue', 'evalSymmetricBarrierValue', 'expConeLineSearch', 'scaleToAddExpcone', 'evalExpPrimalFeas', 'evalExpDualFeas', 'wrightOmega']
prop('C10', EXPO, e2e={'exponential': 4000})
prop('C13', ['branch', 'get_next_node', 'get_global_L', 'get_ret_code', 'should_continue', 'store_solution', 'load_solution', 'is_infeasible', 'get_score', 'initialize_root',
             'get_branch_var_most_infeasible', 'check_infeasible_bool_var', 'check_infeasible_int_var', 'is_reliable', 'set_pseudocost_psi', 'avg_pseudocost', 'initialize_strong_branching'],
     e2e={'mixedinteger': 5000, 'bbunconverged': 3000})
prop('C14', ['contains', 'position', 'socp_to_ecos_bb', 'set_prob', 'updateDataEntry_h', 'updateDataEntry_c', 'ecos_updateDataEntry_h', 'ecos_updateDataEntry_c'],
     e2e={'bbdata': 2000, 'bbupdate': 4000})
prop('C16', EQUIL + ['use_ruiz_equilibration', 'set_equilibration', 'ecos_updateDataEntry_h'], e2e={'equilibration': 4000})
prop('C17', ['check_ctrlc', 'handle_ctrlc'], e2e={'interrupt': 4000, 'handler': 1000})
prop('C06', ['kkt_init', 'kkt_update', 'unstretch', 'RHS_affine', 'RHS_combined', 'spla_cumsum', 'pinv'] + SPARSE, e2e={'kktsystem': 4000, 'scalings': 2000})
prop('C07', ['ldl_l_lsolve', 'ldl_l_lsolve2', 'ldl_l_dsolve', 'ldl_l_ltsolve'], e2e={'factor': 3000})
prop('C09', ['lineSearch', 'RHS_combined', 'expConeLineSearch'], e2e={'linesearch': 4000, 'newtonstep': 6000})
