M = {1: ['B', 'C', 'R', 'W'], 2: ['BB', 'CC', 'WC', 'CB', 'B', 'R'], 3: ['BBB', 'CWB', 'WBC', 'R']}
RUNS = [dict(np=n) for n in (1, 2, 4, 6)]
ORD = {1: ['row1_type'] * 4, 2: ['row2_type', 'col2_type'], 3: ['row3_type', 'tuple<2,0,1>', 'col3_type']}
def P(name, d, lm, t, i, extra=(), rms=None):
    o = ORD[d]
    return dict(name=name, src='p19.cpp', libs=['core'], opt='-O0', timeout=200, runs=RUNS,
                defs=['-DP_D=%d' % d, '-DP_T=%s' % t, '-DP_LM=M_%s' % lm, '-DP_LO=%s' % o[i % len(o)], '-DP_RO=%s' % o[(i // 2) % len(o)],
                      '-DP_RMS=' + ' '.join('X(M_%s)' % r for r in (rms or M[d]))] + list(extra))
PARTS = [P('d1' + m, 1, m, 'int', i) for i, m in enumerate(M[1])]
PARTS += [P('d2' + m, 2, m, 'float', i) for i, m in enumerate(M[2])]
PARTS += [P('d3' + m, 3, m, 'int', i) for i, m in enumerate(M[3])]
PARTS += [P('x2' + m, 2, m, 'float', i, ['-DP_MIXED'], ['B', 'C', 'R1']) for i, m in enumerate(['BB', 'CC', 'B', 'WC', 'R'])]
PARTS += [P('x3' + m, 3, m, 'int', i, ['-DP_MIXED'], ['B', 'R1']) for i, m in enumerate(M[3])]
BL = '-DP_%s(D,T,O,M)=ovxx::Strided<D,T,Layout<D,O,%s,%s>,M>'
PARTS += [P('c1s', 1, 'B', 'complex<float>', 0, [BL % ('LB', 'dense', 'split_complex'), BL % ('RB', 'dense', 'split_complex')], ['B', 'C', 'R']),
          P('c1i', 1, 'C', 'complex<double>', 0, [BL % ('LB', 'dense', 'interleaved_complex'), BL % ('RB', 'dense', 'array')], ['B', 'C', 'R']),
          P('c1j', 1, 'B', 'complex<float>', 0, [BL % ('LB', 'dense', 'array'), BL % ('RB', 'dense', 'interleaved_complex')], ['B', 'C']),
          P('c2s', 2, 'CB', 'complex<float>', 1, [BL % ('LB', 'aligned_32', 'split_complex'), BL % ('RB', 'dense', 'split_complex')], ['BB', 'CC']),
          P('c2i', 2, 'BB', 'complex<float>', 3, [BL % ('LB', 'aligned_64', 'interleaved_complex'), BL % ('RB', 'aligned_16', 'interleaved_complex')], ['CB', 'R']),
          P('a3', 3, 'WBC', 'double', 1, [BL % ('LB', 'aligned_32', 'array'), BL % ('RB', 'aligned_16', 'array')], ['BBB', 'R'])]
PARTS += [P('t1', 1, 'B', 'double', 0, ['-DP_RT=int'], ['B', 'C', 'R']), P('t2', 2, 'CC', 'float', 0, ['-DP_RT=int'], ['BB', 'R']), P('t3', 3, 'BBB', 'complex<float>', 0, ['-DP_RT=float'], ['CWB'])]
RULE = ('a case is one destination and one source view (maps, processors, shapes, subdomains, transposes, slices, dimension orders, complex formats) assigned one to three times, '
        'directly or through a prepared assignment; every processor compares every element it holds of both complete roots with the serial result; distinct = distinct configurations')
ASSUMPTIONS = ['subdomains of block-cyclic maps are documented as unsupported', 'source and destination do not overlap', 'processor sets have no duplicates', 'all processors make the same assignments in the same order']
MIN_DISTINCT = 300
