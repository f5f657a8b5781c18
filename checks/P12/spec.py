def P(n, T, d, o): return dict(name=n, src='p12.cpp', defs=['-DP_T=' + T, '-DP_D=%d' % d, '-DP_O=%d' % o, '-DP_REPS=%d' % (150 if d == 1 else 100)] + (['-DVT_SPLIT8=aligned_64'] if 'complex' in T else []), libs=['core', 'fft'], opt='-O0', runs=[dict(scale=1.0)])
CF, CD = 'std::complex<float>', 'std::complex<double>'
PARTS = [P('f1', 'float', 1, 1), P('d1', 'double', 1, 2), P('cf1', CF, 1, 3), P('cd1', CD, 1, 5), P('i1', 'int', 1, 4),
         P('f2', 'float', 2, 1), P('d2', 'double', 2, 4), P('cf2', CF, 2, 7), P('cd2', CD, 2, 9), P('cf1b', CF, 1, 6), P('f1b', 'float', 1, 7)]
RULE = ('a case is one call of a convolution or correlation object of random kernel, input, support, symmetry, decimation and storage forms; every output, '
        'the surroundings of the output, the inputs and the reported sizes are checked; distinct = distinct (object, sizes, storage forms)')
ASSUMPTIONS = ['the kernel is not longer than the input, except with full and same support of symmetric kernels', 'unbiased one-dimensional same-support scaling is the one C-VSIPL defines']
MIN_DISTINCT = 6000
