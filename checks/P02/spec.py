cf, cd = 'std::complex<float>', 'std::complex<double>'
def P(name, l, r, d, lo, hi, reps):
    return dict(name=name, src='p02.cpp', libs=['core'], opt='-O0',
                defs=['-DP_LT=' + l, '-DP_RT=' + r, '-DPD=%d' % d, '-DLLO=%d' % lo, '-DLHI=%d' % hi, '-DREPS=%d' % reps])
PARTS = [P('v_cf', cf, cf, 1, 0, 10, 12), P('m_cf_a', cf, cf, 2, 0, 4, 25), P('m_cf_b', cf, cf, 2, 4, 8, 25),
         P('m_cf_c', cf, cf, 2, 8, 12, 25), P('t_cf', cf, cf, 3, 0, 8, 25),
         P('m_d_a', 'double', 'double', 2, 0, 4, 25), P('m_d_b', 'double', 'double', 2, 4, 12, 25),
         P('v_if', 'int', 'float', 1, 0, 4, 20), P('m_cdf', cd, 'double', 2, 0, 4, 20)]
RULE = ('a case assigns one freshly built view to another of the same shape; left and right range over all pairs of '
        'storage forms (dense orders, strided and reversed subviews, transposes, aligned, split, interleaved, slices, '
        'real/imag parts); both complete parents are compared with the model; distinct = distinct (left, right, shape) descriptions')
ASSUMPTIONS = ['left and right do not overlap']
MIN_DISTINCT = 2000
