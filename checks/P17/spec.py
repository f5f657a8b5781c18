def P(n, T): return dict(name=n, src='p17.cpp', defs=['-DP_T=' + T, '-DP_REPS=25'], libs=['core'], opt='-O0', runs=[dict(scale=1.0)])
PARTS = [P('f', 'float'), P('d', 'double'), P('i', 'int'), P('cf', 'std::complex<float>')]
RULE = ('a case is one call of a selection or generation function on views of random shape, storage form and contents; distinct = distinct (function, dimension, type, shape, storage forms, parameters)')
ASSUMPTIONS = ['scatter to the same element twice is only observed with equal values', 'clip limits are ordered']
MIN_DISTINCT = 10000
