def P(n, g):
    return dict(name=n, src='p04.cpp', defs=['-DPGRP=%d' % g], libs=['core'], san='asanall', opt='-O0', runs=[dict(scale=1.0)])
PARTS = [P('real1', 1), P('cplx1', 2), P('cplx2', 3), P('real2_3', 4), P('cplx3', 5)]
RULE = ('a case is one random program of admit/release/rebind/find calls, view reads and writes and user-side writes over one block, the user '
        'memory being exact-size heap buffers; distinct = distinct (block form, user format, operation, update flag, admitted state, previous operation)')
ASSUMPTIONS = ['a released block is not accessed through views; values left by admit(false) are not specified']
MIN_DISTINCT = 400
