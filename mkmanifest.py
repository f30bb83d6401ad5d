"""Writes properties.jsonl and MANIFEST.json from the statements below (run after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification of the C source (weakest-precondition style symbolic execution of the clang AST, z3), contracts evaluated on the compiled code for counterexamples'
P = []


def p(id, title, statement, over, text, why, files, mech, note=None, level='proof', na=None, theorems=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, na=na))


p('C01', 'An OPTIMAL exit is certified by the returned point',
  'Whenever the solver reports an optimal solution (also with reduced accuracy), the returned primal and dual variables satisfy, on the data the user supplied, the equality and conic equations and the dual equations within the matching feasibility tolerance, the slacks and multipliers lie in the cone and its dual up to that tolerance, and the duality gap is within the absolute or relative tolerance. The reported costs are those of the returned point, and only documented exit codes are returned.',
  ['inputs', 'configurations'], 'every conic program (linear, second-order, exponential cones), every tolerance setting',
  'The tests solve about forty fixed problems and compare one cost; they never evaluate residuals, cone membership or tolerances of the returned point.',
  ['src/ecos.c', 'src/spla.c', 'src/cone.c', 'src/kkt.c'],
  [('exit test on residuals and gap', 'src/ecos.c checkExitConditions'), ('residuals of the homogeneous embedding', 'src/ecos.c computeResiduals'), ('statistics', 'src/ecos.c updateStatistics'), ('scaling back to user units', 'src/ecos.c backscale')],
  'Contracts on the exit test, residual, statistics and back-scaling functions are proved for all inputs; the whole-solver statement is additionally evaluated on executions of the real solver against the user data (bounded).')
p('C02', 'Infeasibility and unboundedness exits are certified',
  'Whenever the solver reports primal infeasibility (also inaccurately), the returned multipliers lie in the dual cone (up to that tolerance), give the constraints a strictly negative value and annihilate the constraint matrices up to the matching feasibility tolerance relative to their size. Whenever it reports dual infeasibility, the returned point is a ray of the primal cone with strictly negative cost along which the constraints do not change up to that tolerance, and problems with a strictly feasible primal-dual pair are never declared infeasible or unbounded.',
  ['inputs', 'configurations'], 'every conic program, including infeasible and unbounded ones with any cone combination, every tolerance setting',
  'The tests contain a handful of infeasible instances and only compare the exit code.',
  ['src/ecos.c', 'src/spla.c'],
  [('infeasibility measures', 'src/ecos.c updateStatistics'), ('certificate test', 'src/ecos.c checkExitConditions'), ('back-scaling of certificates', 'src/ecos.c backscale')],
  'The measures and the exit test are proved against their specification for all inputs; whole-solver certificates are evaluated on executions (bounded).')
p('C03', 'Results are one consistent iterate, no worse than those seen before',
  'On every exit that returns an iterate (optimal, reduced accuracy, iteration limit, numerical problems, leaving the cone) the returned primal and dual variables belong to a single iterate, and the reported primal cost, dual cost, gap and residual statistics are those of exactly that iterate. When the solver falls back to an earlier iterate it is the recorded best one, with the statistics recorded for it.',
  ['inputs', 'histories', 'configurations'], 'every problem and every iteration limit, every way of leaving the main loop',
  'The tests only look at costs of successful runs; early, numerical and infeasible exits with their fallback are never inspected.',
  ['src/ecos.c'],
  [('comparison of iterates', 'src/ecos.c compareStatistics'), ('recording the best iterate', 'src/ecos.c saveIterateAsBest'), ('falling back', 'src/ecos.c restoreBestIterate'), ('main loop', 'src/ecos.c ECOS_solve')],
  'Saving, restoring and comparing iterates is proved for all inputs; the whole-solver statement is evaluated on executions with forced early exits (bounded).')
p('C04', "The caller's problem data survive solve and cleanup",
  'After solving and cleaning up, on every exit path and also after repeated solves or a cleanup without a solve, every array the caller passed in (constraint matrices with their index arrays, right-hand sides, cost, cone sizes) holds the values the caller supplied, up to rounding in the last digit. After a solve the cost vector is back in user units for every exit code.',
  ['inputs', 'histories'], 'every problem, every exit code, any sequence of solves before cleanup',
  'No test inspects the data arrays after a solve; the equilibration rewrites them in place.',
  ['src/ecos.c', 'src/equil.c', 'src/preproc.c'],
  [('equilibration undone', 'src/equil.c unset_equilibration, restore'), ('cost rescaled', 'src/ecos.c backscale'), ('cleanup order', 'src/preproc.c ECOS_cleanup')],
  'Back-scaling, equilibration (with the Ruiz iteration) and its undo are proved functions; whole-history behaviour is evaluated on executions (bounded).')
p('C05', 'Sparse and vector kernels compute exactly the stated operation',
  'For every matrix in compressed-column form and every vector, the sparse products compute y += A x, y -= A x, y += -A\'x variants (with or without clearing y and with or without the diagonal) entry by entry, and the vector kernels compute sums, scaled differences, norms and inner products. Transposing, copying and symmetrically permuting a sparse matrix keep every entry at its mirrored or permuted place, column pointers are the cumulated counts, and the inverse permutation undoes the permutation. They read and write only the stated entries.',
  ['inputs'], 'every matrix pattern (empty rows, columns, repeated row indices), every vector, every flag combination',
  'The tests exercise the kernels only through complete solves of fixed problems.',
  ['src/spla.c', 'src/splamm.c'],
  [('products with a matrix and its transpose', 'src/spla.c sparseMV, sparseMtVm'), ('vector kernels', 'src/spla.c vadd, vsubscale, norm2, norminf, eddot'),
   ('structure of sparse matrices', 'src/splamm.c transposeSparseMatrix, permuteSparseSymmetricMatrix, copySparseMatrix, spla_cumsum, pinv')],
  'The products, the vector kernels, spla_cumsum and pinv are proved against their full functional specification for all inputs (floating point treated as real arithmetic); transposition, copying and symmetric permutation are compared with an entry oracle on executions (bounded).')
p('C06', 'Search directions solve the KKT system of the current scaling',
  'At every iteration the stored KKT matrix is the symmetric system [0 A\' G\'; A 0 0; G 0 -W^2] of the problem data and of the Nesterov-Todd scaling W of the current slacks and multipliers (W z = W^-1 s = lambda; barrier Hessian for exponential cones), plus only the static regularisation, with the identity in place of W^2 initially. The linear solver returns, for every right-hand side and any allowed number of refinement steps, a finite solution of the unregularised system up to the regularisation, and leaves the right-hand side alone.',
  ['inputs', 'configurations'], 'every problem pattern and cone combination, every pair of interior points, every right-hand side, every refinement limit',
  'The tests never look at the linear systems; a wrong block or a weak solve only slows convergence on the easy fixed problems.',
  ['src/kkt.c', 'src/cone.c', 'src/preproc.c', 'src/ecos.c'],
  [('scalings', 'src/cone.c updateScalings'), ('KKT entries', 'src/kkt.c kkt_update, kkt_init'), ('structure', 'src/preproc.c createKKT_U'), ('solve and refinement', 'src/kkt.c kkt_solve'), ('right-hand sides', 'src/ecos.c RHS_affine')],
  'The writers of the KKT entries, the kernels and the unpermutation are proved per function; scalings, matrix structure and kkt_solve are evaluated on executions against dense linear algebra (bounded).')
p('C07', 'The LDL factorisation is exact and keeps the prescribed signs',
  'For every symmetric matrix the numerical factorisation yields a unit lower triangular L and diagonal D with L D L\' equal to the permuted matrix, except that a pivot which has the wrong sign or is smaller than the threshold is replaced by the given regularisation with the prescribed sign, so it always succeeds; the column storage computed symbolically is never exceeded. The triangular and diagonal solves apply exactly the inverse of the stored factors.',
  ['inputs'], 'every sparsity pattern, every numerical value, every sign vector and regularisation',
  'The tests reach the factorisation only through solves whose refinement hides errors.',
  ['external/ldl/src/ldl.c', 'src/kkt.c'],
  [('numerical factorisation', 'external/ldl/src/ldl.c LDL_numeric2'), ('symbolic analysis', 'external/ldl/src/ldl.c LDL_symbolic2'), ('triangular solves', 'external/ldl/src/ldl.c LDL_lsolve2, LDL_dsolve, LDL_ltsolve'), ('driver', 'src/kkt.c kkt_factor')],
  'The four solve routines are proved for all inputs; the factorisation itself is evaluated on executions against dense arithmetic (bounded).')
p('C09', 'Steps stay inside the cones and reduce the residuals as predicted',
  'The line search returns the largest step (within its fixed limits) along which the scaled slacks and multipliers, tau and kappa stay inside the symmetric cones. Every iteration keeps tau and kappa positive and the iterate strictly inside all cones, leaves at least the fraction 1-gamma of the distance to the boundary, uses centring and step parameters inside their limits, and scales all linear residuals of the embedding by exactly 1 - step (1 - sigma).',
  ['inputs', 'histories', 'configurations'], 'every problem, every iteration count, every combination of cones and search directions',
  'The tests compare final costs; a step that leaves the cone or a wrong direction is repaired by later iterations on the fixed problems.',
  ['src/ecos.c', 'src/cone.c'],
  [('line search', 'src/ecos.c lineSearch, expConeLineSearch'), ('directions', 'src/ecos.c RHS_affine, RHS_combined'), ('update of the iterate', 'src/ecos.c ECOS_solve')],
  'The line search and the right-hand side of the combined direction are under contract (the return value of the first and the cone algebra inside the second are evaluated on executions); the effect of whole iterations is evaluated on executions (bounded).')
p('C08', 'Cone algebra: scaling, unscaling, product and division are exact',
  'For every cone and every vector, applying the current scaling, its inverse, the conic product and the conic division gives exactly the arrow-algebra result for each linear and second-order block, so that unscale undoes scale and division undoes the product. The initial points are pushed into the interior of the cone by exactly the amount needed plus one.',
  ['inputs', 'configurations'], 'every combination of cone sizes (including one-dimensional cones and none at all), every scaling and vector',
  'The tests never call the cone routines; only end-to-end costs on fixed cones are compared.',
  ['src/cone.c'],
  [('scaling and inverse', 'src/cone.c scale, unscale'), ('product and division', 'src/cone.c conicProduct, conicDivision'), ('initial point', 'src/cone.c bring2cone, unitInitialization'), ('removal of the stretching', 'src/cone.c unstretch')],
  'Proved per function against the arrow-algebra specification; the obligations listed as bounded in the evidence are decided by evaluating the contract on executions.')
p('C11', 'Updating the data is equivalent to a fresh setup',
  'After replacing the numerical values of the problem (all arrays at once in new or in the original memory, with equality constraints present or absent, or single entries of the cost and right-hand side), before or after solving, the next solve gives the same exit code and optimal cost as a freshly created problem with those data. Data arrays passed earlier are handed back unscaled.',
  ['inputs', 'histories'], 'every problem, every interleaving of updates and solves, every placement of the new arrays in memory',
  'One test updates one fixed problem; memory placement, partial updates and absent equality constraints are not covered.',
  ['src/ecos.c', 'src/equil.c', 'src/kkt.c'],
  [('data update', 'src/ecos.c ECOS_updateData'), ('entry updates', 'src/ecos.c ecos_updateDataEntry_h, ecos_updateDataEntry_c'), ('write-through to the KKT matrix', 'src/ecos.c ECOS_updateData')],
  'ECOS_updateData (new arrays away from the old ones), the entry updates, set_equilibration and unset_equilibration are proved; in-place and overlapping arrays and the equality with a fresh setup are decided by differential executions (bounded).')
p('C12', 'Setup, solve and cleanup use memory correctly',
  'For every well-formed problem, setting up, solving any number of times and cleaning up performs no out-of-bounds, use-after-free or double-free access, and cleanup releases everything except the first k of the solution vectors x, y, s, z when the caller asks to keep k of them, which stay valid and unchanged. Every array access of the internal routines stays inside its object.',
  ['inputs', 'histories'], 'every problem dimension including absent cones, constraints or equalities; every number of kept variables',
  'The tests run without memory checking and always with the same few dimensions and keep counts.',
  ['src/preproc.c', 'src/ecos.c', 'src/cone.c', 'src/spla.c'],
  [('workspace allocation', 'src/preproc.c ECOS_setup'), ('release', 'src/preproc.c ECOS_cleanup')],
  'Bounds obligations of all routines under contract (about 65 functions) are proved for all inputs; setup and cleanup run under an address sanitizer on generated problems (bounded).')
p('C15', 'Iteration and refinement limits are respected and the solver returns',
  'For every problem and every iteration limit (including zero) the solver returns, reports at most the allowed number of iterations and at most the allowed number of refinement steps per linear system, and gives the iteration-limit code (or a reduced-accuracy verdict) when it stops there. Solving the same workspace again gives the same verdict and number of iterations.',
  ['inputs', 'configurations', 'histories'], 'every problem, every setting of the limits, repeated solves',
  'The tests use default limits only.',
  ['src/ecos.c', 'src/kkt.c'],
  [('main loop', 'src/ecos.c ECOS_solve'), ('iterative refinement', 'src/kkt.c kkt_solve')],
  'Limits are evaluated on executions of the solver with forced limits (bounded); the functions listed are proved.')

p('C10', 'Exponential cones: barrier, derivatives, membership and certificates',
  'For every point inside the dual exponential cone the gradient and the Hessian used by the solver are those of its barrier, the barrier value is the sum of primal and dual barriers over all exponential cones, a step accepted by the line search leads to a point inside the primal and dual exponential cones whose distance to the central path is within its limit, membership tests accept exactly the points of the (closed) primal and dual exponential cones with positive coordinates where required, and scaling by the Hessian is the exact product added to the right position. Problems with exponential cones end with certified answers: a strictly feasible problem is never declared infeasible or unbounded, and points returned as optimal lie in the cones.',
  ['inputs'], 'every point inside the cones, every number of exponential cones after any linear and second-order part',
  'The tests solve a few fixed exponential problems and compare one cost; derivatives and membership are never evaluated.',
  ['src/expcone.c', 'src/wright_omega.c', 'src/cone.c', 'src/ecos.c'],
  [('derivatives of the barrier', 'src/expcone.c evalExpGradient, evalExpHessian'), ('membership', 'src/expcone.c evalExpPrimalFeas, evalExpDualFeas'), ('barrier value', 'src/expcone.c evalBarrierValue, src/cone.c evalSymmetricBarrierValue'), ('line search', 'src/ecos.c expConeLineSearch'), ('Hessian product', 'src/cone.c scaleToAddExpcone'), ('Wright function', 'src/wright_omega.c wrightOmega')],
  'Proved per function with log and the Wright function as uninterpreted functions; the Wright function itself and whole solves are evaluated on executions (bounded).')
p('C13', 'Branch and bound returns the true mixed-integer optimum or verdict',
  'For every mixed-integer conic program, branching strategy, node selection rule and node limit: a solution returned by the mixed-integer solver satisfies the constraints with all boolean and integer variables integral within the tolerance and is not better than the true optimum; an OPTIMAL verdict means its cost is within the gap tolerance of the true optimum; an infeasible verdict means that no integer point is feasible; the limit codes are returned exactly when the node limit was reached. The statistics belong to the returned solution. Branching never loses an integer value and cuts off a fractional one, and the next node is an open node with the smallest bound (or the dive node).',
  ['inputs', 'configurations', 'histories'], 'every mixed-integer problem, all five branching strategies, three node selection rules, every node limit, repeated solves',
  'The tests solve a few fixed mixed-integer problems with one or two strategies and compare the known solution.',
  ['ecos_bb/ecos_bb.c'],
  [('branching', 'ecos_bb/ecos_bb.c branch'), ('node selection', 'ecos_bb/ecos_bb.c get_next_node'), ('bounds of a node', 'ecos_bb/ecos_bb.c get_bounds'), ('termination and verdict', 'ecos_bb/ecos_bb.c should_continue, get_ret_code'), ('strong branching', 'ecos_bb/ecos_bb.c check_infeasible_bool_var, check_infeasible_int_var')],
  'Branching, node selection, verdict, incumbent and pseudocost functions are proved; the whole search is compared with exhaustive enumeration on executions (bounded).')
p('C14', 'Mixed-integer setup and updates keep rows and data in their place',
  'Setting up a mixed-integer problem puts two bound rows for every listed boolean or integer variable, in list order, in front of the user rows, which keep their coefficients and right-hand sides; a node sets exactly these bound rows to the bounds of the node; updating an entry of the right-hand side or of the cost through the mixed-integer interface changes exactly that row or variable of the user, so that the next solve is that of the changed problem. The arrays of the user are as supplied after cleanup.',
  ['inputs', 'histories'], 'every order and mixture of boolean, integer and continuous variables, every pattern of the matrix, any sequence of updates and solves',
  'The tests use fixed problems whose variable lists are sorted and never update after setup.',
  ['ecos_bb/ecos_bb_preproc.c', 'ecos_bb/ecos_bb.c', 'src/ecos.c'],
  [('bound rows', 'ecos_bb/ecos_bb_preproc.c socp_to_ecos_bb'), ('bounds of a node', 'ecos_bb/ecos_bb.c set_prob'), ('updates', 'ecos_bb/ecos_bb.c updateDataEntry_h, updateDataEntry_c')],
  'Proved except socp_to_ecos_bb, whose contract is evaluated on executions; updates and setup are also compared with enumeration (bounded).')
p('C16', 'Equilibration is exact, positive and uniform per cone',
  'After setup and after every solve or data update the scaled problem is an exact rescaling of the user data: every matrix entry times its row and column scaling, and every right-hand side entry times its row scaling, is the user value; all scalings are positive and finite; all rows of one second-order or exponential cone share one scaling, so that scaled points lie in the cone exactly when the originals do.',
  ['inputs', 'configurations'], 'every matrix (zero rows and columns, entries of any magnitude), every cone combination, with and without equality constraints',
  'The tests never look at the scalings and use well-scaled data.',
  ['src/equil.c', 'src/ecos.c'],
  [('row and column measures', 'src/equil.c max_rows, max_cols'), ('scaling', 'src/equil.c equilibrate_rows, equilibrate_cols'), ('Ruiz iteration', 'src/equil.c use_ruiz_equilibration'), ('undo', 'src/equil.c unset_equilibration, restore')],
  'The kernels, the Ruiz iteration, set_equilibration and unset_equilibration are proved; whole histories are evaluated on executions (bounded).')
p('C17', 'Interrupts stop the solve cleanly and the handler is restored',
  'A SIGINT that arrives during a solve ends it at the next poll as if the iteration limit had been reached there: same returned iterate and statistics, with the interrupt code unless the reduced accuracy is reached; it affects only that solve and does not reach the handler of the caller. Whatever the exit path, the interrupt action of the caller is installed again after the solve.',
  ['schedules', 'histories'], 'every iteration at which the signal can arrive, every exit path, any previous signal action, repeated solves',
  'No test sends a signal.',
  ['src/ctrlc.c', 'src/ecos.c'],
  [('handler and flag', 'src/ctrlc.c init_ctrlc, remove_ctrlc, check_ctrlc, handle_ctrlc'), ('poll in the main loop', 'src/ecos.c ECOS_solve')],
  'The flag functions are proved; arrival times are exercised on executions with a signal raised at a chosen poll (bounded).')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                                    anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']], observe_at=['public API'], hook_needed=None))) + '\n')
            assert len(x['title']) <= 80, x['title']
    checks = []; na = []
    for x in P:
        if x['na']: na.append(dict(property=x['id'], reason=x['na'])); continue
        checks.append(dict(property=x['id'], quick_cmd='python3-vt check.py ' + x['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + x['id'],
                           evidence_file='evidence/%s.json' % x['id'], technique=TECH, level=x['level'], level_note=x['note']))
    json.dump(dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=checks, not_applicable=na,
                   notes='No hooks in /repo: the contracts are side files in /verif/contracts, bound to the functions of /repo on every run.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
