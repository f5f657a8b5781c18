S = ['tu1.cpp', 'tu2.cpp', 'tu3.cpp', 'tu4.cpp', 'tu5.cpp']
I = ['tu1.cpp', 'tu3.cpp', 'tu4.cpp', 'tu5.cpp']
# fresh memory is filled with NaN patterns, with zeros, and with an ordinary byte: a result that depended on it would differ from the model
def fill(b): return {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=4194304:malloc_fill_byte=%d:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1' % b}
RUNS = [dict(env=fill(255), scale=16), dict(env=fill(0), scale=8), dict(env=fill(63), scale=8)]
PARTS = [dict(name='double', src=S, libs=['core', 'fft'], opt='-O0', defs=['-DRTYPE=double'], runs=RUNS),
         dict(name='float', src=S, libs=['core', 'fft'], opt='-O0', defs=['-DRTYPE=float'], runs=RUNS),
         dict(name='int', src=I, libs=['core', 'fft'], opt='-O0', defs=['-DRTYPE=int', '-DINTEGRAL=1'], runs=RUNS[:1]),
         dict(name='fast', src=S, libs=['core', 'fft'], opt='-O2', san='none', defs=['-DRTYPE=float'], runs=[dict(scale=100)])]
RULE = ('an evaluation counts when, after one step of a random program, the views written hold what the sequential model gives and every element of every live view equals its cell in the model; distinct by operation, '
        'kinds and shapes of the views involved. Programs of 150 steps create arrays (by constructor, element-wise, over user storage), derive subviews, rows, columns, diagonals, transposes, slices and components, and '
        'assign, combine, swap, reduce, multiply, transform and access them directly. Fresh memory is filled with different patterns in different runs.')
ASSUMPTIONS = ['the destination of one assignment either is the very view it reads or does not overlap it', 'inexact results are compared within 64 ulps of the magnitude of the operands and the model continues from the value found']
MIN_DISTINCT = 2000
