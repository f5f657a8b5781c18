# The workloads of other monitors, repeated with the same seed while every allocation is recorded.
W = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'free', 'posix_memalign', 'memalign'))]
def take(pid, names, scale, nps=(0,)):
    g = {'TIER': TIER, 'SEED': SEED, 'REPO': REPO, 'VERIF': VERIF}
    d = '%s/checks/%s' % (VERIF, pid)
    exec(open(d + '/spec.py').read(), g)
    out = []
    for p in g['PARTS']:
        if names is not None and p['name'] not in names: continue
        out.append(dict(name=pid + '_' + p['name'], src='steady.cpp', libs=p['libs'], opt='-O0', san='none', timeout=200, ldflags=W,
                        defs=p.get('defs', []) + ['-I' + d, '-DP_SRC="%s/%s"' % (d, p['src'])],
                        runs=[dict(np=n, scale=scale) if n else dict(scale=scale) for n in nps]))
    return out
PARTS = []
for x in (('P01', ('mat_alt_cd', 'ten_alt_cf'), .2), ('P02', ('v_cf', 'm_cf_b', 't_cf'), .2), ('P03', ('user', 'partial', 'nest_cf2'), 1), ('P04', ('cplx2', 'real2_3'), .3),
          ('P05', ('m_cd1', 't_d', 'expr'), .3), ('P08', ('m_cd',), .3), ('P09', ('mm_cf', 'mv_cd', 'v_cf'), 1),
          ('P10', ('v_fwd', 'v_crd', 'm_rc0', 't_inv', 'mm_cr0', 'mm_inv1'), 1), ('P11', ('cf', 'd'), .3), ('P12', ('cf1', 'f2'), .3), ('P13', ('f',), .3), ('P14', ('wf', 'cd'), .3), ('P15', ('cd',), .3),
          ('P16', ('dc', 'cdb', 'cfa', 'fb'), .5), ('P17', ('cf',), .1), ('P18', ('d1', 'd2B', 'd3CB'), 2, (1, 3)), ('P19', ('d1R', 'd2BB', 'd2CB', 'd3WBC', 'x2CC', 'c2s'), 3, (1, 3, 4)),
          ('P20', ('e1C', 'e2BB', 'e3CWB', 'r2CC', 'g2CB', 'v2'), 3, (1, 3, 4)), ('P22', ('cf', 's'), .3)):
    PARTS += take(*x)
RULE = ('a case is one case of another property\'s workload, executed four times in one process with every allocation of the library and the workload recorded: an allocation made in the last repetition and never '
        'released, when each repetition leaves more than the one before, is a violation; distinct = distinct cases of those workloads')
ASSUMPTIONS = ['allocations inside FFTW, BLAS and MPI are not recorded', 'allocations of the first repetition may stay (tables, caches)']
MIN_DISTINCT = 3000
