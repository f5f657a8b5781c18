M = {1: ['B', 'C', 'R', 'W'], 2: ['BB', 'CC', 'WC', 'B', 'R'], 3: ['BBB', 'CWB', 'R']}
RUNS = [dict(np=n) for n in (1, 2, 4, 6)]
ORD = {1: ['row1_type'] * 4, 2: ['row2_type', 'col2_type'], 3: ['row3_type', 'tuple<2,0,1>', 'col3_type']}
def P(name, mode, d, lm, t, i, extra=(), rms=None):
    o = ORD[d]
    return dict(name=name, src='p20.cpp', libs=['core'], opt='-O0', timeout=240, runs=RUNS,
                defs=['-DMODE_' + mode, '-DP_D=%d' % d, '-DP_T=%s' % t, '-DP_LM=M_%s' % lm, '-DP_LO=%s' % o[i % len(o)], '-DP_RO=%s' % o[(i // 2) % len(o)],
                      '-DP_RMS=' + ' '.join('X(M_%s)' % r for r in (rms or M[d]))] + list(extra))
PARTS = [P('e1' + m, 'E', 1, m, 'int', i) for i, m in enumerate(M[1])]
PARTS += [P('e2' + m, 'E', 2, m, 'double', i, rms=['BB', 'CC', 'B', 'R']) for i, m in enumerate(M[2])]
PARTS += [P('e3' + m, 'E', 3, m, 'int', i, ['-DP_FEW']) for i, m in enumerate(M[3])]
PARTS += [P('em', 'E', 1, 'B', 'double', 0, ['-DP_RT=int', '-DP_FEW'], ['B', 'C', 'R'])]
PARTS += [P('r1' + m, 'R', 1, m, t, 0, rms=['B', 'C', 'R']) for m, t in zip(M[1], ['int', 'float', 'int', 'double'])]
PARTS += [P('r2' + m, 'R', 2, m, t, i, rms=['CC', 'R']) for i, (m, t) in enumerate(zip(['BB', 'CC', 'R'], ['float', 'int', 'int']))]
PARTS += [P('r3' + m, 'R', 3, m, t, i, rms=['BBB']) for i, (m, t) in enumerate(zip(['BBB', 'CWB', 'R'], ['int', 'float', 'int']))]
PARTS += [P('g%d%s' % (d, m), 'G', d, m, 'std::complex<float>' if d == 2 else 'int', i, rms=['R']) for d in (1, 2, 3) for i, m in enumerate(M[d])]
PARTS += [dict(name='v2', src='p20.cpp', libs=['core', 'fft'], opt='-O0', timeout=240, runs=RUNS, defs=['-DMODE_V', '-DP_D=2', '-DP_T=float', '-DP_LO=row2_type']),
          dict(name='v2c', src='p20.cpp', libs=['core', 'fft'], opt='-O0', timeout=240, runs=RUNS, defs=['-DMODE_V', '-DP_D=2', '-DP_T=std::complex<double>', '-DP_LO=col2_type']),
          dict(name='comm', src='p20.cpp', libs=['core'], opt='-O0', timeout=240, runs=[dict(np=n) for n in (1, 2, 3, 4, 6)], defs=['-DMODE_C', '-DP_D=1', '-DP_T=int', '-DP_REPS=20'])]
def DA(name, d, lm, t, o, pk, sf, ls):
    return dict(name=name, src='p20.cpp', libs=['core'], opt='-O0', timeout=240, runs=[dict(np=n) for n in (1, 2, 4, 6)],
                defs=['-DMODE_D', '-DP_REPS=25', '-DP_D=%d' % d, '-DP_T=' + t, '-DP_LM=M_' + lm, '-DP_LO=' + o, '-DP_PK=' + pk, '-DP_SF=' + sf, '-DP_RMS=X(M_R)',
                      '-DP_LAYOUTS=' + ' '.join('L(Layout<%d,%s>)' % (d, l) for l in ls)])
CF = 'std::complex<float>'
PARTS += [DA('d1', 1, 'R', CF, 'row1_type', 'dense', 'split_complex', ['ovxx::any_type,any_packing,any_storage_format', 'row1_type,any_packing,split_complex']),
          DA('d1i', 1, 'C', CF, 'row1_type', 'dense', 'interleaved_complex', ['row1_type,dense,array', 'ovxx::any_type,any_packing,any_storage_format', 'row1_type,unit_stride,interleaved_complex']),
          DA('d2', 2, 'BB', 'float', 'row2_type', 'aligned_64', 'array', ['row2_type,dense,array', 'col2_type,unit_stride,array', 'ovxx::any_type,any_packing,array', 'row2_type,aligned_32,array', 'col2_type,aligned_16,array']),
          DA('d2c', 2, 'B', CF, 'col2_type', 'aligned_32', 'interleaved_complex', ['row2_type,unit_stride,array', 'col2_type,dense,interleaved_complex', 'ovxx::any_type,any_packing,any_storage_format', 'row2_type,aligned_64,array']),
          DA('d2r', 2, 'R', CF, 'row2_type', 'aligned_32', 'interleaved_complex', ['row2_type,dense,array', 'col2_type,dense,interleaved_complex', 'ovxx::any_type,any_packing,any_storage_format', 'row2_type,unit_stride,interleaved_complex', 'row2_type,aligned_32,interleaved_complex']),
          DA('d2x', 2, 'CC', 'double', 'row2_type', 'aligned_128', 'array', ['row2_type,dense,array', 'ovxx::any_type,any_packing,array', 'col2_type,aligned_64,array']),
          DA('d3', 3, 'BBB', 'int', 'tuple<1,2,0>', 'aligned_32', 'array', ['row3_type,dense,array', 'tuple<2,0,1>,unit_stride,array', 'ovxx::any_type,any_packing,array', 'tuple<1,2,0>,aligned_64,array'])]
RULE = ('a case is one expression statement, set of reductions, element-access history, direct access in some layout, product, transform, user-storage history or communication over random maps, processors and shapes; '
        'every processor compares all elements it holds, and every value returned, with the serial result; distinct = distinct configurations')
ASSUMPTIONS = ['subdomains of block-cyclic maps are documented as unsupported', 'all processors execute the same collective operations in the same order', 'values are small integers, so sums are exact in every order']
MIN_DISTINCT = 300
