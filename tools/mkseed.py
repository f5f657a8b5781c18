#!/usr/bin/env python3
"""mkseed.py SPEC...: turn a planted-bug spec (python file defining ID, PROPERTY,
EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (c++ source), optional NP, OPT,
ENV) into seeded/<ID>/.  The patch is computed in a scratch worktree of /repo."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# cwd /repo, after build.sh: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_plm=isolated OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_btl_base_warn_component_unused=0 OPENBLAS_NUM_THREADS=1 TMPDIR=$t
%(env)sM=/usr/lib/x86_64-linux-gnu/openmpi
g++ -std=gnu++14 %(opt)s -w -DOMPI_SKIP_MPICXX -I_build/src -Isrc -Isupport -I$M/include -I$M/include/openmpi \\
  "$d/demo.cpp" -o "$t/demo" _build/lib/libovxx.a -lfftw3f -lfftw3 -lopenblas -L$M/lib -lmpi -lrt -lpthread -ldl || exit 99
timeout 120 %(run)s"$t/demo"
'''
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    wt = tempfile.mkdtemp(prefix='seedwt.', dir='/tmp')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt + '/w', 'HEAD'])
        w = wt + '/w'
        for e in g['EDITS']:
            fn, old, new = e[:3]
            p = w + '/' + fn
            s = open(p).read()
            n = s.count(old)
            want = e[3] if len(e) > 3 else 1
            if n != want:
                sys.exit('%s: %d occurrences in %s of %r' % (f, n, fn, old))
            open(p, 'w').write(s.replace(old, new))
        d = V + '/seeded/' + g['ID']
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(['git', '-C', w, 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.cpp', 'w').write(g['DEMO'].lstrip('\n'))
        np = g.get('NP', 1)
        env = ''.join('export %s=%s\n' % kv for kv in g.get('ENV', {}).items())
        open(d + '/demo.sh', 'w').write(SH % dict(env=env, opt=g.get('OPT', '-O1'),
            run='mpiexec --oversubscribe -n %d ' % np if np > 1 else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']),
                  open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
        print(g['ID'], 'ok', len(diff))
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt + '/w'])
        shutil.rmtree(wt, ignore_errors=True)
