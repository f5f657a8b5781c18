def P(n, T): return dict(name=n, src='p13.cpp', defs=['-DP_T=' + T, '-DP_REPS=60'], libs=['core'], opt='-O0', runs=[dict(scale=1.0)])
PARTS = [P('f', 'float'), P('d', 'double'), P('i', 'int')]
RULE = ('a case is one call of one of several histogram objects (constructed, copied, assigned) with or without accumulation; distinct = distinct '
        '(type, range, bins, storage form, history of calls)')
ASSUMPTIONS = ['the width of the range is representable in the value type and no value is a NaN', 'a floating-point value within rounding distance of an edge may be counted on either side of it']
MIN_DISTINCT = 3000
