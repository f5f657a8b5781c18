def P(n, D, T, lo, hi, reps):
    return dict(name=n, src='p05.cpp', defs=['-DPD=%d' % D, '-DPT=' + T, '-DPLO=%d' % lo, '-DPHI=%d' % hi, '-DPREPS=%d' % reps],
                libs=['core'], san='asan', opt='-O0', runs=[dict(scale=1.0)])
CF, CD = 'std::complex<float>', 'std::complex<double>'
PARTS = ([P('v_f', 1, 'float', 0, 10, 6), P('v_cf_a', 1, CF, 0, 5, 6), P('v_cf_b', 1, CF, 5, 10, 6)] +
         [P('m_f%d' % i, 2, 'float', 4 * i, 4 * i + 4, 6) for i in range(3)] + [P('m_cd%d' % i, 2, CD, 3 * i, 3 * i + 3, 6) for i in range(4)] +
         [P('t_cf%d' % i, 3, CF, 4 * i, 4 * i + 4, 6) for i in range(2)] + [P('t_d', 3, 'double', 0, 8, 4)] +
         [dict(name='expr', src='p05.cpp', defs=['-DPEXPR'], libs=['core'], san='asan', opt='-O0')])
RULE = ('a case opens one direct access to a view in a requested dimension order, packing and complex format, judges the presented values, strides, '
        'sizes and alignment, writes through the pointer, synchronises, and compares the whole parent block before and after; distinct = distinct '
        '(element type, view form and selection, request, sync policy, direct or copied)')
ASSUMPTIONS = ['alignments up to the configured allocation alignment (32) are requested']
MIN_DISTINCT = 1500
