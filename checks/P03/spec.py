def P(name, grp, sub=0):
    return dict(runs=[dict(scale=6.0)], name=name, src='p03.cpp', defs=['-DPGRP=%d' % grp, '-DPSUB=%d' % sub], libs=['core'], opt='-O0')
PARTS = [P('unary_real', 1), P('unary_cplx', 2), P('binary_real', 3), P('binary_cplx', 4, 0), P('binary_scalar', 4, 1),
         P('ternary', 5, 0), P('compound', 5, 1), P('user', 5, 2),
         P('nest_f1', 6, 0), P('nest_cf1', 6, 1), P('nest_d2', 6, 2), P('nest_cf2', 6, 3), P('nest_3d', 6, 4), P('partial', 6, 5)]
RULE = ('a case evaluates one function, operator or nested expression over freshly drawn operands in given storage forms, by assignment '
        'and by direct element reads, against an independent formula in long double; distinct = distinct (function, types, storage forms, shape)')
ASSUMPTIONS = ['arguments lie in the domain of the function', 'floating-point results agree to a small multiple of machine epsilon of the result type']
MIN_DISTINCT = 1500
