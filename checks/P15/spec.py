def P(n, T): return dict(name=n, src='p15.cpp', defs=['-DP_T=' + T, '-DP_REPS=60'], libs=['core'], opt='-O0', runs=[dict(scale=1.0)])
PARTS = [P('f', 'float'), P('d', 'double'), P('cf', 'std::complex<float>'), P('cd', 'std::complex<double>'),
         ] + [dict(name=n, src='p15.cpp', defs=['-DP_T=' + T, '-DP_PERIOD=%d' % m], libs=['core'], opt='-O2', san='none', runs=[dict(scale=1.0)])
              for n, T, m in (('period', 'double', 0), ('period_n', 'double', 1), ('period_c1', 'std::complex<double>', 1), ('period_c2', 'std::complex<double>', 2))]
RULE = ('a case is a history of single and view-filling draws, uniform and normal, from up to three generators; every number drawn is compared with the '
        'recurrence; distinct = distinct (generator parameters, history of draws, storage forms)')
ASSUMPTIONS = ['a view returned by the generator is used once', 'numbers fill a matrix or tensor in index order when its storage is row-major, in some order otherwise']
MIN_DISTINCT = 3000
