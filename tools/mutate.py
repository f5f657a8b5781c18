#!/usr/bin/env python3
"""mutate.py PLAN OUT: run the quick checks against small semantic mutants.

PLAN: python file defining MUT = [(name, file, old, new, [property ids])] --
hand-written changes -- or, with --auto N SEED FILES:PIDS..., random operator
mutants.  Each mutant is applied in a scratch worktree and the checks run with
VERIF_REPO there; OUT gets one line per mutant: caught / MISSED / nobuild."""
import os, random, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')

def run(name, edits, pids, out):
    wt = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    w = wt + '/r'
    try:
        subprocess.check_call(['git', '-C', REPO, 'worktree', 'add', '-q', '--detach', w, 'HEAD'])
        os.makedirs(w + '/_build')
        subprocess.call(['cp', '-a', '/repo/_build/src', w + '/_build/'])
        for fn, old, new in edits:
            s = open(w + '/' + fn).read()
            if s.count(old) < 1:
                out('%s: NOMATCH %s' % (name, fn)); return
            if isinstance(new, tuple):   # (line number, text)
                L = s.split('\n'); L[new[0]] = new[1]; s = '\n'.join(L)
            else:
                s = s.replace(old, new, 1)
            open(w + '/' + fn, 'w').write(s)
        res = []
        for p in pids:
            e = dict(os.environ, VERIF_REPO=w, VERIF_SEED='1')
            r = subprocess.run(['python3', 'run.py', p], cwd=V, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True, errors='replace')
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
            if r.returncode == 1 and v:
                res.append('%s caught %s' % (p, v[0][-160:])); break
            if r.returncode:
                res.append('%s rc=%d %s' % (p, r.returncode, r.stdout[-200:].replace('\n', ' / ')))
                break
            res.append('%s MISSED' % p)
        out('%s: %s' % (name, '; '.join(res)))
    finally:
        subprocess.call(['git', '-C', REPO, 'worktree', 'remove', '--force', w])
        shutil.rmtree(wt, ignore_errors=True)

OPS = [(r'(?<![<>=!\-+])<=(?!=)', '<'), (r'(?<![<>=!\-+])>=(?!=)', '>'), (r' < ', ' <= '), (r' > ', ' >= '),
       (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '),
       (r'\+ 1\b', ''), (r'- 1\b', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
       (r'\+=', '='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=return )!', ''),
       (r'\bDim0\b', 'Dim1'), (r'\bi\b', 'j'), (r'\brows\b', 'cols')]

def auto(n, seed, specs, out):
    R = random.Random(seed)
    cand = []
    for spec in specs:
        fn, pids = spec.split(':')
        L = open(REPO + '/' + fn).read().split('\n')
        for i, l in enumerate(L):
            c = l.split('//')[0]
            if not c.strip() or re.match(r'\s*(#|template|class|struct|typedef|using|namespace|\*|/\*|static .*const|enum)', c):
                continue
            if 'assert' in c or 'PRECONDITION' in c or 'INVARIANT' in c or 'throw' in c:
                continue
            for pat, rep in OPS:
                for m in re.finditer(pat, c):
                    new = l[:m.start()] + rep + l[m.end():]
                    if '<' in m.group(0) and ('typename' in c or '::type' in c): continue
                    cand.append((fn, i, l, new, pids.split(',')))
            if re.match(r'\s+[\w>.\-()\[\]]+ ?(=|\+=).*;\s*$', c) or re.match(r'\s+[\w.\->]+\(.*\);\s*$', c):
                cand.append((fn, i, l, '/* */;', pids.split(',')))
    R.shuffle(cand)
    for k, (fn, i, l, new, pids) in enumerate(cand[:n]):
        name = '%s:%d %r -> %r' % (fn, i + 1, l.strip(), new.strip())
        run(name, [(fn, l, (i, new))], pids, out)

if __name__ == '__main__':
    if sys.argv[1] == '--auto':
        o = open(sys.argv[4], 'a')
        def out(s): o.write(s + '\n'); o.flush()
        auto(int(sys.argv[2]), int(sys.argv[3]), sys.argv[5:], out)
    else:
        g = {}; exec(open(sys.argv[1]).read(), g)
        o = open(sys.argv[2], 'a')
        def out(s): o.write(s + '\n'); o.flush()
        only = sys.argv[3:]
        for m in g['MUT']:
            name, fn, old, new, pids = m
            if only and name not in only: continue
            run(name, [(fn, old, new)], pids, out)
