W = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'free', 'posix_memalign', 'memalign'))]
PARTS = [dict(name='fail', src='p25.cpp', libs=['core', 'fft'], opt='-O0', ldflags=W, runs=[dict()])]
RULE = ('an evaluation counts when one allocation of one operation was made to fail (operator new, malloc, calloc, posix_memalign and memalign as called by the library) and the operation reported std::bad_alloc, holding nothing, '
        'with all existing views unchanged, and succeeded when repeated; or went on with the right result; or, if part of it is declared not to throw, ended through std::terminate. Distinct by operation, allocation and outcome.')
ASSUMPTIONS = ['allocations made inside FFTW, BLAS, LAPACK and MPI are not failed', 'operations part of which is declared noexcept (assignment to views among them) may end the program; they run in processes of their own']
MIN_DISTINCT = 200
