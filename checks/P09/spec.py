CF, CD = 'std::complex<float>', 'std::complex<double>'
def P(n, g, T, lo, hi, reps):
    return dict(name=n, src='p09.cpp', defs=['-DP_G=%d' % g, '-DP_T=' + T, '-DP_LO=%d' % lo, '-DP_HI=%d' % hi, '-DP_REPS=%d' % reps],
                libs=['core'], opt='-O0', runs=[dict(scale=10.0)])
PARTS = [P('mm_f', 0, 'float', 0, 12, 20), P('mm_d', 0, 'double', 12, 24, 20), P('mm_cf', 0, CF, 24, 36, 20), P('mm_cd', 0, CD, 36, 48, 20), P('mm_i', 0, 'int', 0, 6, 10),
         P('mv_f', 1, 'float', 0, 24, 20), P('mv_d', 1, 'double', 24, 36, 20), P('mv_cf', 1, CF, 36, 54, 20), P('mv_cd', 1, CD, 0, 24, 20),
         P('m1_f', 2, 'float', 0, 12, 20), P('m1_cd', 2, CD, 12, 24, 20), P('m1_i', 2, 'int', 24, 30, 10),
         P('v_f', 3, 'float', 0, 20, 20), P('v_d', 3, 'double', 20, 40, 20), P('v_cf', 3, CF, 40, 60, 20), P('v_cd', 3, CD, 60, 80, 20)]
RULE = ('a case computes one product with one choice of storage forms, shapes and transposing or conjugating variant, and compares every element of the '
        'result with the defining sum in long double (exactly, for integral values), the rest of the destination and the operands being unchanged; '
        'distinct = distinct (operation, type, storage forms and selections, shape)')
ASSUMPTIONS = ['operands and destination do not overlap unless the operation allows it', 'all operands of one call have the same value type']
MIN_DISTINCT = 2500
