def P(n, T, lo, hi, o): return dict(name=n, src='p11.cpp', defs=['-DP_T=' + T, '-DP_LO=%d' % lo, '-DP_HI=%d' % hi, '-DP_O=%d' % o, '-DP_REPS=60'], libs=['core'], opt='-O0', runs=[dict(scale=1.0)])
CF, CD = 'std::complex<float>', 'std::complex<double>'
PARTS = [P('f', 'float', 0, 6, 1), P('d', 'double', 2, 8, 2), P('cf', CF, 1, 7, 3), P('cd', CD, 3, 9, 4), P('f2', 'float', 4, 10, 6), P('cf2', CF, 6, 12, 5)]
RULE = ('a case feeds one frame to one of several filter objects made by construction, copying and assignment, and compares every output with the '
        'recurrence over the whole stream that object has been fed since it started afresh; distinct = distinct (filter, sizes, storage forms, '
        'history of frames, resets, copies and assignments)')
ASSUMPTIONS = ['frame sizes, kernels and decimations respect the documented preconditions', 'kernels longer than one coefficient', 'IIR sections are stable']
MIN_DISTINCT = 3000
