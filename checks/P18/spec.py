K = dict(W='W_', B='B_', C='C_')
R = [dict(np=n, scale=1.0) for n in (1, 3, 4)]
def P(name, d, defs): return dict(name=name, src='p18.cpp', defs=['-DP_D=%d' % d] + defs, libs=['core'], opt='-O0', runs=[dict(np=n) for n in (1, 4, 6)])
ROW = {1: ('row1_type',), 2: ('row2_type', 'col2_type'), 3: ('row3_type', 'tuple<2,0,1>', 'col3_type')}
PARTS = [P('d1', 1, ['-DP_O=row1_type', '-DP_ON="row"', '-DP_REPS=60'])]
PARTS += [P('w%d' % d, d, ['-DP_WHOLE', '-DP_O=%s' % ROW[d][-1], '-DP_ON="w"', '-DP_REPS=40']) for d in (1, 2, 3)]
PARTS += [P('d2' + a, 2, ['-DP_0=' + K[a], '-DP_O=%s' % ROW[2][i % 2], '-DP_ON="%s"' % 'rc'[i % 2], '-DP_REPS=30']) for i, a in enumerate('WBC')]
PARTS += [P('d3' + a + b, 3, ['-DP_0=' + K[a], '-DP_1=' + K[b], '-DP_O=%s' % ROW[3][(i + j) % 3], '-DP_ON="%s"' % 'rtc'[(i + j) % 3], '-DP_REPS=12'])
          for i, a in enumerate('WBC') for j, b in enumerate('WBC')]
RULE = ('a case is one map (distribution, subblock count and contiguity per dimension, processors) applied to one shape, every query of the map, of a view carrying it and of '
        'one subview of that view compared with explicit element lists for every index; distinct = distinct (map, shape, processors, subview)')
ASSUMPTIONS = ['no dimension of extent zero', 'subdomains of block-cyclic maps are documented as unsupported', 'processor sets have no duplicates']
MIN_DISTINCT = 1500
