def W(n, T): return dict(name=n, src='p14.cpp', defs=['-DP_T=' + T, '-DP_W'], libs=['core', 'fft'], opt='-O1', runs=[dict(scale=1.0, tscale=6)])
def F(n, T, lo, hi): return dict(name=n, src='p14.cpp', defs=['-DP_T=' + T, '-DP_LO=%d' % lo, '-DP_HI=%d' % hi, '-DP_REPS=60'], libs=['core', 'fft'], opt='-O0', runs=[dict(scale=1.0)])
PARTS = [W('wf', 'float'), W('wd', 'double'), F('f', 'float', 0, 6), F('d', 'double', 6, 12), F('cf', 'std::complex<float>', 0, 6), F('cd', 'std::complex<double>', 6, 12), F('i', 'int', 3, 9)]
RULE = ('a case is one generated window, or one frequency swap of a view in one storage form into another, in place, of or in an expression; distinct = '
        'distinct (window, length, parameter) or (form, shape, storage forms)')
ASSUMPTIONS = ['window lengths of at least two, as documented', 'the Kaiser window is accurate to the documented approximation of the Bessel function',
               'single-precision Chebyshev windows up to 100 coefficients, where rounding does not dominate']
MIN_DISTINCT = 3000
