ENV = {'PMIX_MCA_gds': 'hash', 'OPENBLAS_NUM_THREADS': '1', 'TSAN_OPTIONS': 'suppressions=%s/checks/P23/tsan.supp:halt_on_error=0:exitcode=66:history_size=4:ignore_noninstrumented_modules=1' % VERIF}
PARTS = [dict(name='race', src='p23.cpp', libs=['core', 'fft'], san='tsan', opt='-O1', timeout=280, runs=[dict(env=ENV, scale=2)]),
         dict(name='mem', src='p23.cpp', libs=['core', 'fft'], san='asan', opt='-O1', timeout=280, runs=[dict(env=ENV, scale=3)]),
         dict(name='fast', src='p23.cpp', libs=['core', 'fft'], san='none', opt='-O2', timeout=280, runs=[dict(env=ENV, scale=10)])]
RULE = ('an evaluation counts when a piece of work done by one of several concurrently running threads (24 kinds: element-wise, transposes, split complex, reductions, FFTs, filters, solvers, generators, '
        'direct access) gave what the same work gave alone, when a reader thread saw only the values of the shared data, or when a block or counted object shared by several threads was destroyed exactly once and never '
        'while referenced; distinct by kind, number of threads, library style (one vsipl object, none of its own, one per piece of work) and seed. The same schedules are run under ThreadSanitizer, AddressSanitizer and at full speed.')
ASSUMPTIONS = ['OpenBLAS runs single-threaded', 'a thread that uses the library holds a vsipl object of its own for as long as it uses views, or the process holds one',
               'reports of ThreadSanitizer that do not touch the library (MPI, PMIx, libevent are not instrumented) are not counted',
               'the acquire fence in decrement_count is not modelled by ThreadSanitizer; destruction is judged by counting instead']
MIN_DISTINCT = 300
