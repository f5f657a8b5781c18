import glob
_inc = ['-I' + REPO, '-I' + REPO + '/python/src', '-I' + VERIF + '/checks/P26',
        '-I/usr/include/python3.12', '-I/usr/lib/python3/dist-packages/numpy/core/include',
        '-DP26_DIR="%s/checks/P26"' % VERIF]
_mods = sorted(glob.glob(VERIF + '/checks/P26/mods/*.cpp'))
_names = ['views', 'math', 'signal', 'solvers', 'errors']
PARTS = [dict(name='py', src=['main.cpp'] + _mods, libs=['core', 'fft'], defs=_inc, opt='-O0',
              ldflags=['-lboost_python312', '-lpython3.12'],
              runs=[dict(args=['--group', g]) for g in _names])]
RULE = ('a case is a chain of operations on blocks of the binding modules (views), one function call (math, signal, solvers) or one invalid request (errors), '
        'mirrored by NumPy on the same data; distinct = distinct operation sequences with shapes, strides and types')
ASSUMPTIONS = ['the Python layer itself is written for Python 2 and cannot be imported by the installed interpreter: the compiled binding modules are driven directly, '
               'with the arguments that layer passes', 'the binding modules are linked into one program instead of being loaded as shared objects']
MIN_DISTINCT = 1000
