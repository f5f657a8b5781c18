def P(name, t, d, reps, s='array', **k):
    return dict(name=name, src='p01.cpp', defs=['-DPT=' + t, '-DPD=%d' % d, '-DREPS=%d' % reps, '-DPS=' + s], libs=['core'], opt='-O0', **k)
cf, cd = 'std::complex<float>', 'std::complex<double>'
PARTS = [
    P('vec_cf', cf, 1, 800, 'split_complex'), P('vec_i', 'int', 1, 600),
    P('mat_row_cf', cf, 2, 2500), P('mat_col_d', 'double', 3, 2500),
    P('mat_alt_cd', cd, 4, 1000, 'split_complex'), P('mat_alt_cf', cf, 4, 1000, 'interleaved_complex'),
    P('ten_012_cf', cf, 5, 2500), P('ten_210_d', 'double', 7, 2500),
    P('ten_orders_f', 'float', 6, 1000), P('ten_alt_cf', cf, 8, 1000, 'split_complex'),
]
RULE = ('a case is one chain of subview operations (domains with positive and negative strides, rows, columns, '
        'diagonals, transposes, slices, fibres, permutations, real/imag) over one parent layout; every link is '
        'observed by reading all its elements, writing through it and comparing the complete parent; distinct = '
        'distinct (layout, shape, chain) strings')
ASSUMPTIONS = ['subviews are requested with in-range selections only']
MIN_DISTINCT = 2000
