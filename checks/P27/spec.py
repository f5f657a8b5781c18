# The monitors of other properties, run on the library as other configurations build it.
CF, CD = 'std::complex<float>', 'std::complex<double>'
SPLIT = {'OVXX_DEFAULT_COMPLEX_STORAGE_SPLIT': '1'}
DFT = {'OVXX_FFTW': None, 'OVXX_DFT_FFT': '1'}
NOBLAS = {'OVXX_HAVE_BLAS': None, 'OVXX_USE_CBLAS': None}
NOMPI = {'OVXX_HAVE_MPI': None}
NOTHR = {'OVXX_ENABLE_THREADING': None}
A64, A16 = {'OVXX_ALLOC_ALIGNMENT': '64'}, {'OVXX_ALLOC_ALIGNMENT': '16'}
W = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'free', 'posix_memalign', 'memalign'))]
def P(cfg, cname, pid, name, defs, fft=False, runs=None, san='asan', src=None, opt='-O0', timeout=240):
    return dict(name='%s_%s_%s' % (cname, pid, name), src='%s/checks/%s/%s' % (VERIF, pid, src or pid.lower() + '.cpp'), cfg=cfg, opt=opt, san=san, timeout=timeout,
                libs=['core', 'fft'] if fft else ['core'], defs=['-D' + d for d in defs], runs=runs or [dict(scale=1.0)])
def T(t, **k): return ['P_T=' + t] + ['P_%s=%s' % x for x in sorted(k.items())]
def F(cfg, cname, name, D, t, kind, ax, lo, hi, m=False, extra=()):
    return P(cfg, cname, 'P10', name, T(t, D=D, KIND=kind, AX=ax, LO=lo, HI=hi, REPS=6, BV=kind + ax) + (['P_FFTM'] if m else []) + list(extra), True)
G16 = dict(LO=0, HI=6, REPS=60)
PARTS = [P(SPLIT, 'split', 'P01', 'm', ['PT=' + CF, 'PD=2', 'REPS=800', 'PS=interleaved_complex']),
         P(SPLIT, 'split', 'P02', 'm', ['P_LT=' + CF, 'P_RT=' + CF, 'PD=2', 'LLO=0', 'LHI=4', 'REPS=10']),
         P(SPLIT, 'split', 'P03', 'b', ['PGRP=4', 'PSUB=0']),
         P(SPLIT, 'split', 'P04', 'c1', ['PGRP=2'], san='asanall'), P(SPLIT, 'split', 'P04', 'c2', ['PGRP=3'], san='asanall'),
         P(SPLIT, 'split', 'P05', 'm', ['PD=2', 'PT=' + CF, 'PLO=3', 'PHI=6', 'PREPS=6']),
         P(SPLIT, 'split', 'P08', 'v', T(CF, D=1, LO=0, HI=10, REPS=12)),
         P(SPLIT, 'split', 'P09', 'mm', T(CD, G=0, LO=36, HI=44, REPS=20), runs=[dict(scale=5.0)]),
         F(SPLIT, 'split', 'v_fwd', 1, 'float', 0, 0, 0, 8), F(SPLIT, 'split', 'v_rc', 1, 'double', 2, 0, 4, 8), F(SPLIT, 'split', 'v_cr', 1, 'float', 3, 0, 0, 6),
         F(SPLIT, 'split', 'm_rc1', 2, 'double', 2, 1, 5, 9), F(SPLIT, 'split', 'mm_inv0', 2, 'double', 1, 0, 8, 12, True), F(SPLIT, 'split', 't_cr1', 3, 'double', 3, 1, 3, 5),
         P(SPLIT, 'split', 'P11', 'cf', T(CF, LO=1, HI=5, O=3, REPS=40)), P(SPLIT, 'split', 'P11', 'cd', T(CD, LO=3, HI=7, O=4, REPS=40)),
         P(SPLIT, 'split', 'P12', 'cf1', T(CF, D=1, O=3, REPS=60), True), P(SPLIT, 'split', 'P12', 'cf2', T(CF, D=2, O=7, REPS=40), True),
         P(SPLIT, 'split', 'P14', 'cf', T(CF, LO=0, HI=6, REPS=40), True),
         P(SPLIT, 'split', 'P16', 'cf', T(CF, PART=1, SHIFT=3, REPS=50)),
         P(SPLIT, 'split', 'P19', 'd2', ['P_D=2', 'P_T=complex<float>', 'P_LM=M_CB', 'P_LO=row2_type', 'P_RO=col2_type', 'P_RMS=X(M_BB) X(M_R)'], runs=[dict(np=2), dict(np=3)]),
         P(SPLIT, 'split', 'P22', 'cf', ['P_REPS=30', 'P_RUN=complexes<complex<float> >();', 'P_READ=X(float,"float") X(complex<float>,"cfloat") X(complex<double>,"cdouble")']),
         F(DFT, 'dft', 'v_inv', 1, 'double', 1, 0, 2, 6, False, ['P_DFT']), F(DFT, 'dft', 'v_rc', 1, 'float', 2, 0, 0, 4, False, ['P_DFT']),
         F(DFT, 'dft', 'm_cr0', 2, 'double', 3, 0, 0, 4, False, ['P_DFT']), F(DFT, 'dft', 't_fwd', 3, 'float', 0, 0, 0, 3, False, ['P_DFT']),
         F(DFT, 'dft', 'mm_rc1', 2, 'double', 2, 1, 7, 11, True, ['P_DFT']),
         P(NOBLAS, 'noblas', 'P09', 'mm', T('double', G=0, LO=12, HI=20, REPS=20), runs=[dict(scale=5.0)]), P(NOBLAS, 'noblas', 'P09', 'mv', T(CF, G=1, LO=36, HI=46, REPS=20), runs=[dict(scale=5.0)]),
         P(NOBLAS, 'noblas', 'P09', 'm1', T('float', G=2, LO=0, HI=8, REPS=20), runs=[dict(scale=5.0)]), P(NOBLAS, 'noblas', 'P09', 'v', T(CD, G=3, LO=60, HI=74, REPS=20), runs=[dict(scale=5.0)]),
         P(NOMPI, 'nompi', 'P02', 'm', ['P_LT=' + CF, 'P_RT=' + CF, 'PD=2', 'LLO=4', 'LHI=8', 'REPS=10']),
         P(NOMPI, 'nompi', 'P04', 'r', ['PGRP=4'], san='asanall'),
         P(NOMPI, 'nompi', 'P06', 'm', T('double', D=2, DEPTH=2), runs=[dict(scale=2.0)]),
         P(NOMPI, 'nompi', 'P21', 'dom', [], opt='-O1', runs=[dict(scale=0.05)]),
         dict(name='nompi_life', src='life.cpp', cfg=NOMPI, opt='-O0', libs=['core'], ldflags=W),
         dict(name='bare_life', src='life.cpp', cfg=dict(NOMPI, **NOTHR), opt='-O0', libs=['core'], ldflags=W),
         P(NOTHR, 'nothr', 'P02', 'v', ['P_LT=int', 'P_RT=float', 'PD=1', 'LLO=0', 'LHI=4', 'REPS=20']),
         P(A64, 'al64', 'P05', 'm', ['PD=2', 'PT=float', 'PLO=4', 'PHI=8', 'PREPS=6']), P(A64, 'al64', 'P06', 'm', T(CD, D=2, DEPTH=2), runs=[dict(scale=2.0)]),
         F(A64, 'al64', 'm_rc0', 2, 'float', 2, 0, 0, 6), F(A64, 'al64', 'mm_cr1', 2, 'float', 3, 1, 5, 9, True),
         P(A16, 'al16', 'P06', 'm', T(CF, D=3, DEPTH=2), runs=[dict(scale=2.0)]), F(A16, 'al16', 'v_fwd', 1, 'double', 0, 0, 0, 6), F(A16, 'al16', 'm_cr1', 2, 'float', 3, 1, 6, 10)]
RULE = ('a case is one case of another property\'s monitor, run on the library compiled in another configuration: split default complex storage, the built-in DFT instead of FFTW, no BLAS, no MPI, no threads, '
        'allocation alignments 64 and 16; distinct = distinct case signatures of those monitors, per configuration')
ASSUMPTIONS = ['the configurations are the configured header of this build with the macros of the configure option changed', 'without LAPACK there is no solver backend at all',
               'tolerances of transforms are wider for the built-in DFT, which sums in the value type', 'allocation alignments of at least the size of a complex number']
MIN_DISTINCT = 8000
