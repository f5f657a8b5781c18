def P(n, T, p, q): return dict(name=n + 'abc'[p], src='p16.cpp', defs=['-DP_T=' + T, '-DP_PART=%d' % p, '-DP_SHIFT=%d' % q, '-DP_REPS=%d' % [90, 80, 60][p]], libs=['core'], opt='-O0', runs=[dict(scale=1.0)])
PARTS = [P(n, T, p, q) for p in (1, 2, 0) for q, n, T in ((0, 'f', 'float'), (5, 'd', 'double'), (3, 'cf', 'std::complex<float>'), (8, 'cd', 'std::complex<double>'))]
RULE = ('a case is a history of decompositions, copies, assignments, solves, products and column queries over a pool of solver objects, each result compared by residual '
        'with the equations that define it; distinct = distinct (shape, storage option, history, operand and result storage)')
ASSUMPTIONS = ['operand matrices of a decomposition may be overwritten', 'Toeplitz solver: positive definite matrices', 'full-rank matrices for QR and least squares']
MIN_DISTINCT = 3000
