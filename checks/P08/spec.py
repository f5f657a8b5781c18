CF, CD = 'std::complex<float>', 'std::complex<double>'
def P(n, D, T, lo, hi, reps):
    return dict(name=n, src='p08.cpp', defs=['-DP_D=%d' % D, '-DP_T=' + T, '-DP_LO=%d' % lo, '-DP_HI=%d' % hi, '-DP_REPS=%d' % reps],
                libs=['core'], opt='-O0')
PARTS = [P('v_%s' % n, 1, t, 0, 10, 24) for n, t in (('f', 'float'), ('d', 'double'), ('i', 'int'), ('b', 'bool'), ('cf', CF), ('cd', CD))] + \
        [P('m_%s' % n, 2, t, 0, 12, 16) for n, t in (('f', 'float'), ('i', 'int'), ('b', 'bool'), ('cd', CD))] + \
        [P('t_%s' % n, 3, t, 0, 9, 16) for n, t in (('d', 'double'), ('b', 'bool'), ('cf', CF))]
RULE = ('a case reduces one view or expression with every reduction its type has, including vectors across the block length at which long '
        'sums are split; the value is compared with a long-double reduction of the elements and the element at a reported index with the extremum; '
        'distinct = distinct (type, storage form and selection, shape, reduction)')
ASSUMPTIONS = ['no NaN among the elements', 'sums do not overflow']
MIN_DISTINCT = 4000
