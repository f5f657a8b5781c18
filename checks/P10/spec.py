def P(n, D, T, kind, ax, lo, hi, reps, m=False):
    return dict(name=n, src='p10.cpp', defs=['-DP_D=%d' % D, '-DP_T=' + T, '-DP_KIND=%d' % kind, '-DP_AX=%d' % ax, '-DP_LO=%d' % lo,
                '-DP_HI=%d' % hi, '-DP_REPS=%d' % reps, '-DP_BV=%d' % (kind + ax)] + (['-DP_FFTM'] if m else []) + (['-DVT_SPLIT8=aligned_64'] if m or D == 3 else []),
                libs=['core', 'fft'], opt='-O0', runs=[dict(scale=4.0)])
f, d = 'float', 'double'
PARTS = [P('v_fwd', 1, f, 0, 0, 0, 8, 6), P('v_inv', 1, d, 1, 0, 2, 8, 6), P('v_rc', 1, d, 2, 0, 0, 10, 6), P('v_rcf', 1, f, 2, 0, 4, 8, 6), P('v_cr', 1, f, 3, 0, 0, 8, 6), P('v_crd', 1, d, 3, 0, 4, 8, 6),
         P('m_fwd', 2, d, 0, 0, 0, 6, 6), P('m_inv', 2, f, 1, 0, 6, 12, 6), P('m_rc0', 2, f, 2, 0, 0, 6, 6), P('m_rc1', 2, d, 2, 1, 5, 11, 6),
         P('m_cr0', 2, d, 3, 0, 0, 6, 6), P('m_cr1', 2, f, 3, 1, 6, 12, 6),
         P('t_fwd', 3, f, 0, 0, 0, 4, 6), P('t_inv', 3, d, 1, 0, 4, 8, 6), P('t_rc0', 3, d, 2, 0, 0, 3, 6), P('t_rc1', 3, f, 2, 1, 2, 5, 6),
         P('t_rc2', 3, d, 2, 2, 4, 8, 6), P('t_cr0', 3, f, 3, 0, 0, 3, 6), P('t_cr1', 3, d, 3, 1, 3, 6, 6), P('t_cr2', 3, f, 3, 2, 4, 8, 6),
         P('mm_fwd0', 2, f, 0, 0, 0, 4, 6, True), P('mm_fwd1', 2, d, 0, 1, 4, 9, 6, True), P('mm_inv0', 2, d, 1, 0, 8, 12, 6, True), P('mm_inv1', 2, f, 1, 1, 0, 4, 6, True),
         P('mm_rc0', 2, f, 2, 0, 3, 8, 6, True), P('mm_rc1', 2, d, 2, 1, 7, 12, 6, True), P('mm_cr0', 2, d, 3, 0, 0, 5, 6, True), P('mm_cr1', 2, f, 3, 1, 5, 10, 6, True)]
RULE = ('a case constructs one Fft or Fftm object and calls it three times with new data, in varying forms (in place, out of place, by value, inside '
        'expressions, of expressions) and storage forms, comparing every output with the defining DFT in long double, the input and everything outside '
        'the output being unchanged; distinct = distinct (form, call, type, shape, storage forms and selections)')
ASSUMPTIONS = ['complex-to-real input is the half spectrum of a real signal', 'results are compared within a bound growing with eps * log2(size) * norm of the input']
MIN_DISTINCT = 1200
