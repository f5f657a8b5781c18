def P(n, D, T, depth):
    return dict(name=n, src='p06.cpp', defs=['-DP_D=%d' % D, '-DP_T=' + T, '-DP_DEPTH=%d' % depth], libs=['core'], opt='-O0', san='asan', runs=[dict(scale=5.0)])
CF, CD = 'std::complex<float>', 'std::complex<double>'
PARTS = [P('v_f', 1, 'float', 3), P('v_cf', 1, CF, 3), P('m_d', 2, 'double', 2), P('m_cd', 2, CD, 2), P('t_f', 3, 'float', 2), P('t_cf', 3, CF, 2),
         dict(name='under', src='p06.cpp', defs=['-DP_UNDER', '-DP_DEPTH=1'], libs=['core'], opt='-O0', san='asan')]
RULE = ('a step of a random program creates, copies, passes, subviews, combines into a lazy expression, writes or destroys a view; after it the number '
        'of live allocations must equal what the model says is reachable, and every remaining view must read its model values; distinct = distinct '
        '(step, view chain, number of views, live allocations)')
ASSUMPTIONS = ['a lazy expression refers to its operands without owning them: views of the operands are kept while it is used', 'single thread (shared counts are P23)', 'alignments requested are powers of two from 16 to 512']
MIN_DISTINCT = 800
