DV = 'contract-based deductive verification: symbolic execution of the mechanically instrumented real functions against contracts, obligations discharged by algebraic normal forms and z3 for all sizes and values; runtime contract replay for counterexamples'
CLAIMS = {
 'C01': ('proof', 'all sizes and values, real and complex', DV),
 'C02': ('proof', 'all sizes, values and sparse formats', DV),
 'C06': ('proof', 'all prior histories, index sets and values; dense and sparse storage', DV),
 'C07': ('proof', 'all parameter vectors, rows, orders; dense and sparse variants', DV),
 'C08': ('proof', 'all phasors and variances, exact trigonometric identities', DV),
 'C09': ('proof', 'all phasors and variances, exact trigonometric identities', DV),
 'C10': ('proof', 'all sizes and values with invertible blocks', DV),
 'C11': ('proof', 'all sizes and values; common and per-channel deviations', DV),
 'C12': ('proof', 'all data, with the Moore-Penrose equations as contract of scipy.linalg.pinv', DV),
 'C13': ('proof', 'all data, with the factorisation equations as contract of numpy.linalg.svd', DV),
 'C14': ('proof', 'one arbitrary iteration from an arbitrary admissible state, all sizes and data', DV),
 'C15': ('proof', 'one arbitrary weighted iteration from an arbitrary admissible state, all sizes and data', DV),
 'C16': ('proof', 'one arbitrary unweighted iteration from an arbitrary admissible state, all sizes and data', DV),
 'C17': ('proof', 'one arbitrary iteration from an arbitrary admissible state, all sizes and data; duplication matrix for every n', DV),
 'C18': ('proof', 'all histories: loop invariant over an arbitrary iteration; stopping rule for all targets and tolerances', DV),
 'C19': ('proof', 'all arrays and shapes', DV),
 'C21': ('proof', 'all admittance matrices, all duplicate-free node lists in any order', DV),
 'C20': ('proof', 'all numbers of nodes and time steps, exact Fortescue arithmetic', DV),

 'C03': ('proof', 'every size n: generic entries of both matrices against the triangular numbering', DV),
 'C04': ('proof', 'every size n: generic entries of both matrices against the triangular numbering', DV),
 'C05': ('proof', 'any number of distinct inserted indexes in any order, all sizes and values; loop invariant', DV),
 'C24': ('proof', 'all sizes, deviations and argument forms', DV),
 'C25': ('proof', 'all sizes, numbers of time steps and argument forms; block loop as loop contract', DV),
 'C26': ('proof', 'single- and three-phase stages: all sizes, loads and ratings, every loop by contract', DV),
 'C35': ('proof', 'single- and three-phase stages, all sizes and data; estimators under their contracts', DV),
 'C22': ('proof', 'single-phase variant: all sizes, node lists and matrices, one external connection; three-phase variant only runtime-checked (bounded)', DV),
 'C23': ('proof', 'one arbitrary iteration over the buses, all tables', DV),
 'C27': ('proof', 'single- and three-phase load generation, all sizes; profile file format variants only runtime-checked (bounded)', DV),
 'C28': ('proof', 'all single- and three-phase stages, all sizes and data; callees of a stage return arbitrary values', DV),
 'C29': ('proof', 'all records, sizes and data, against recorded pandapower calls', DV),
 'C30': ('proof', 'all sizes and data; pandapower calls under assumed contracts', DV),
 'C31': ('proof', 'lasso prior, loads prior and sparsity rows of the complex prior: every size and estimate; contrast rows for 2 to 5 nodes and known-line rows for 29 and 30 nodes (bounded sizes), every value', DV),
 'C32': ('proof', 'all assignments of channels to phases (each phase present), all sizes, results and history lengths', DV),
 'C34': ('proof', 'all inputs, with cupy functions under the contracts of their numpy namesakes', DV),
}
RC = 'runtime checking of the stated contract on the real functions over generated inputs (bounded stand-in, not a proof)'
for i in 'C22 C23 C27 C28 C29 C30 C31 C32'.split():
    CLAIMS.setdefault(i, ('exploration', 'bounded: generated inputs only', RC))
NA = {'C33': 'the reported information matrix of the current code does not follow the stated formula in its off-diagonal blocks and its callers depend on it; a repair would change published results, so no contract is claimed for it'}
