#!/usr/bin/env python3
"""Check driver:  run.py <ID> [--tier quick|thorough] [--replay FILE] [--part NAME] [--keep]

Compiles the monitor programs of /verif/checks/<ID> together with the library
sources of the current /repo working tree under a sanitizer, runs them (serial
or under mpirun), and decides the property from what the monitors reported.

exit 0  the property held on everything observed
exit 1  VIOLATION property=<ID> replay=<path>
exit 2  no verdict (build or harness failure, nothing observed)
"""
import sys, os, json, time, subprocess, tempfile, shutil, signal, re, glob, struct, argparse
from concurrent.futures import ThreadPoolExecutor, CancelledError

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
MPI_INC = '/usr/lib/x86_64-linux-gnu/openmpi/include'
MPI_LIB = '/usr/lib/x86_64-linux-gnu/openmpi/lib'
SAN = {
    # vptr, null and alignment checks triple the object size of expression
    # templates; 'asanall' keeps them where pointers are computed
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=vptr,null,alignment', '-fno-sanitize-recover=all',
             '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
    'asanall': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
             '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['-fsanitize=thread', '-fno-omit-frame-pointer'],
    'none': [],
}
BASE_ENV = {
    'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
    'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_pml': 'ob1',
    'OMPI_MCA_btl_vader_single_copy_mechanism': 'none',
    'OMPI_MCA_plm': 'isolated', 'OMPI_MCA_rmaps_base_oversubscribe': '1',
    'OMPI_MCA_hwloc_base_binding_policy': 'none', 'OMPI_MCA_mpi_yield_when_idle': '1',
    'OMPI_MCA_btl_base_warn_component_unused': '0', 'OMPI_MCA_opal_abort_print_stack': '0',
    'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '2', 'LC_ALL': 'C',
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=4194304:malloc_fill_byte=190'
                    ':allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:print_summary=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=0:second_deadlock_stack=1:report_signal_unsafe=0:suppressions='
                    + os.path.join(VERIF, 'common', 'tsan.supp'),
}


class Harness(Exception):
    pass


def lib_sources(libs):
    s = os.path.join(REPO, 'src')
    core = sorted(glob.glob(s + '/ovxx/*.cpp') + glob.glob(s + '/ovxx/mpi/*.cpp') +
                  glob.glob(s + '/ovxx/parallel/*.cpp') + glob.glob(s + '/vsip/*.cpp'))
    core = [f for f in core if not f.endswith('huge_page_allocator.cpp')]
    out = []
    if 'core' in libs:
        out += core
    if 'fft' in libs:
        out += sorted(glob.glob(s + '/ovxx/signal/*.cpp')) + [s + '/ovxx/fftw/fft.cpp']
    return out


def config_dir():
    c = os.path.join(REPO, '_build', 'src')
    if os.path.exists(os.path.join(c, 'ovxx', 'detail', 'config.hpp')):
        return c
    return os.path.join(VERIF, 'common', 'config')


def run_cmd(cmd, env=None, timeout=None, cwd=None, stop=None):
    """run in its own session; returns (rc, output, timed_out); stop() ends it early"""
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=env, cwd=cwd, start_new_session=True)
        to = False
        end = time.time() + timeout if timeout else None
        while True:
            try:
                rc = p.wait(min(1.0, max(0.0, end - time.time())) if stop and end else timeout)
                break
            except subprocess.TimeoutExpired:
                if (stop and stop()) or time.time() >= end:
                    to = True
                    rc = -9
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        out.seek(0, 2)
        size = out.tell()
        out.seek(max(0, size - 8000000))
        return rc, out.read().decode('utf-8', 'replace'), to


class Check:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.dir = os.path.join(VERIF, 'checks', pid)
        g = {'TIER': tier, 'SEED': seed, 'REPO': REPO, 'VERIF': VERIF}
        with open(os.path.join(self.dir, 'spec.py')) as f:
            exec(compile(f.read(), 'spec.py', 'exec'), g)
        self.parts = [p for p in g['PARTS'] if not only or p['name'] in only]
        # exploration aid: VERIF_CFG='MACRO=value,MACRO=' runs any check in another configuration
        for x in filter(None, os.environ.get('VERIF_CFG', '').split(',')):
            for p in self.parts:
                p.setdefault('cfg', {})[x.split('=')[0]] = x.split('=')[1] or None
        for p in self.parts:
            p['defs'] = p.get('defs', []) + os.environ.get('VERIF_DEFS', '').split()
        self.rule = g['RULE']
        self.assumptions = g.get('ASSUMPTIONS', [])
        self.min_distinct = g.get('MIN_DISTINCT', 1)
        self.cut = False
        self.violations = []        # dicts: key, part, detail...
        self.stats = []
        self.sigs = {}

    # ---- build ----------------------------------------------------------
    def config(self, part):
        """a part may ask for another configuration of the library: the
        configured header with some macros changed ('cfg': macro -> value,
        None for not defined)"""
        cfg = part.get('cfg')
        if not cfg:
            return config_dir()
        d = os.path.join(self.tmp, 'cfg_' + '_'.join('%s=%s' % x for x in sorted(cfg.items())))
        h = os.path.join(d, 'ovxx', 'detail', 'config.hpp')
        if not os.path.exists(h):
            with open(os.path.join(config_dir(), 'ovxx', 'detail', 'config.hpp')) as f:
                txt = f.read()
            top = ''
            for m, v in sorted(cfg.items()):
                txt = re.sub(r'^[ \t]*#[ \t]*define[ \t]+%s\b.*$' % m, '', txt, flags=re.M)
                if v is not None:
                    top += '#undef %s\n#define %s %s\n' % (m, m, v)
            os.makedirs(os.path.dirname(h), exist_ok=True)
            with open(h, 'w') as f:
                f.write(top + txt)
        return d

    def flags(self, part, lib=False):
        san = part.get('san', 'asan')
        fl = ['-I' + self.config(part), '-I' + os.path.join(REPO, 'src'),
              '-I' + os.path.join(REPO, 'support'), '-I' + os.path.join(VERIF, 'common'),
              '-DOMPI_SKIP_MPICXX', '-I' + MPI_INC, '-I' + MPI_INC + '/openmpi',
              '-std=gnu++14', '-pthread', '-w', '-g1', part.get('opt', '-O1')] + SAN[san]
        if not lib:
            fl += part.get('defs', [])
        return fl

    def compile(self, part, src, obj, lib):
        cxx = part.get('cxx', 'g++')
        cmd = [cxx, '-c', src, '-o', obj] + self.flags(part, lib)
        t = time.time()
        rc, out, to = run_cmd(cmd, dict(os.environ, LC_ALL='C'), timeout=700)
        if os.environ.get('VERIF_VERBOSE'):
            print('[cc %.1fs] %s %s' % (time.time() - t, part['name'], os.path.basename(src)), flush=True)
        if rc != 0:
            raise Harness('compilation of %s failed:\n%s' % (src, '\n'.join(l[:600] for l in out[:200000].split('\n') if 'error' in l or 'required from' in l)[:5000] or out[:3000]))

    def build(self):
        jobs, objs = {}, {}
        order = []
        for p in self.parts:
            if 'cmd' in p:
                continue
            san = p.get('san', 'asan')
            cxx = p.get('cxx', 'g++')
            lo = []
            for s in lib_sources(p.get('libs', ['core'])):
                if 'OVXX_HAVE_MPI' in p.get('cfg', {}) and ('/mpi/' in s or '/parallel/' in s):
                    continue
                k = (san, cxx, p.get('opt', '-O1'), self.config(p), s)
                if k not in jobs:
                    jobs[k] = (p, s, os.path.join(self.tmp, 'l%d.o' % len(jobs)), True)
                    order.append(k)
                lo.append(jobs[k][2])
            srcs = [p['src']] if isinstance(p['src'], str) else p['src']
            po = []
            for i, s in enumerate(srcs):
                k = ('part', p['name'], s)
                if not os.path.isabs(s):
                    s = os.path.join(self.dir, s)
                jobs[k] = (p, s, os.path.join(self.tmp, 'p_%s_%d.o' % (p['name'], i)), False)
                order.insert(0, k)
                po.append(jobs[k][2])
            objs[p['name']] = (p, po + lo)
        order.sort(key=lambda k: (k[0] != 'part', 'fft' not in k[-1], -os.path.getsize(jobs[k][1])))
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.compile, *jobs[k]) for k in order]
            err = None
            for f in futs:
                try:
                    f.result()
                except CancelledError:
                    pass
                except Harness as e:
                    err = err or e
                    for g in futs:
                        g.cancel()
            if err:
                raise err

        def link(name):
            p, os_ = objs[name]
            cmd = [p.get('cxx', 'g++')] + SAN[p.get('san', 'asan')] + ['-g1', '-pthread', '-o', os.path.join(self.tmp, name)] + os_ + \
                p.get('ldflags', []) + ['-lfftw3f', '-lfftw3', '-lopenblas', '-L' + MPI_LIB, '-lmpi']
            rc, out, to = run_cmd(cmd, timeout=300)
            if rc != 0:
                raise Harness('linking %s failed:\n%s' % (name, out[-4000:]))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(link, objs))

    # ---- run ------------------------------------------------------------
    def stop(self):
        """a change that makes every run hang must still get its verdict in
        time: once a violation is certain, the rest need not wait for it"""
        t = time.time() - self.t0
        if self.tier != 'quick':
            return False
        return t > (240 if any((self.pid, v['key']) not in self.known for v in self.violations) else 840)

    def classify(self, out, rc, to, part, label):
        """abnormal endings -> list of (key, detail)"""
        v = []

        def frame(txt):
            # first frame that lies in the library
            for m in re.finditer(r'^\s*#\d+ 0x[0-9a-f]+ in (.+)$', txt, re.M):
                fn = re.sub(r'<.*', '', m.group(1))
                fn = re.sub(r'\(.*', '', fn).strip()
                fn = fn.split(' ')[-1] if not re.search(r'operator\s', fn) else fn
                if 'ovxx::' in fn or 'vsip::' in fn:
                    return fn
            return 'unknown'
        m = re.search(r'ERROR: AddressSanitizer: (\S+)', out)
        if m:
            kind = m.group(1)
            if kind not in ('ABRT',):
                v.append(('asan:%s:%s' % (kind, frame(out[m.start():m.start() + 30000])), out[m.start():m.start() + 3000]))
        m = re.search(r'^(\S+?):(\d+):\d+: runtime error: (.*)$', out, re.M)
        if m:
            what = re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(3))[:80]
            v.append(('ubsan:%s:%s' % (os.path.relpath(m.group(1), REPO) if m.group(1).startswith(REPO) else os.path.basename(m.group(1)), what),
                      out[m.start():m.start() + 3000]))
        for m in re.finditer(r'WARNING: ThreadSanitizer: (.*?) \(pid', out):
            blk = out[m.start():m.start() + 12000].split('==================')[0]
            if REPO + '/' not in blk and not part.get('tsan_all'):
                continue
            v.append(('tsan:%s:%s' % (m.group(1).replace(' ', '-'), frame(blk)), blk[:4000]))
        m = re.search(r'^(.*): ([^:\n]*):(\d+): (.*): Assertion `(.*)\' failed', out, re.M)
        if m:
            v.append(('assert:%s:%s' % (os.path.basename(m.group(2)), m.group(5)[:80]), m.group(0)[-1500:]))
        else:
            m = re.search(r'^(.*?):(\d+): (.*): Assertion \'(.*)\' failed', out, re.M)
            if m:
                v.append(('assert:%s:%s' % (os.path.basename(m.group(1)), m.group(4)[:80]), m.group(0)[-1500:]))
        m = re.search(r'terminate called.*(?:\n.*what\(\):.*)?', out)
        if m and not v:
            v.append(('terminate', m.group(0)[:600]))
        if not v and not to:
            m = re.search(r'exited on signal (\d+)|Signal: (\S+) \(|Segmentation fault|MPI_ERR_\w+|(?:free|malloc|realloc)\(\): .*', out)
            if m:
                v.append(('crash:%s' % re.sub(r'\s+', '-', m.group(0))[:60], out[-2500:]))
            elif rc is not None and rc < 0:
                v.append(('crash:signal-%d' % -rc, out[-2500:]))
            elif rc == 77:
                v.append(('crash:sanitizer', out[-2500:]))
        return v

    def one(self, part, run, seed, scale, idx):
        name = part['name']
        np_ = run.get('np', 0)
        slot = os.path.join(self.tmp, 'slot_%s_%d' % (name, idx))
        env = dict(os.environ)
        env.update(BASE_ENV)
        env['TMPDIR'] = self.tmp
        env['VERIF_TMP'] = self.tmp
        env['VERIF_REPO'] = REPO
        for k, x in run.get('env', {}).items():
            env[k] = x
        args = ['--seed', str(seed), '--scale', repr(scale), '--part', name] + run.get('args', [])
        if 'cmd' in part:
            cmd = [c.replace('@DIR@', self.dir).replace('@TMP@', self.tmp) for c in part['cmd']] + args + ['--slot', slot]
        else:
            exe = os.path.join(self.tmp, name)
            if np_:
                cmd = ['mpirun', '-np', str(np_), '--oversubscribe', exe] + args + ['--slot', slot + '.%q']
                cmd = ['mpirun', '-np', str(np_), '--oversubscribe', 'sh', '-c',
                       'exec "$0" "$@" --slot %s.$OMPI_COMM_WORLD_RANK' % slot, exe] + args
            else:
                cmd = run.get('wrap', []) + [exe] + args + ['--slot', slot]
        timeout = run.get('timeout', part.get('timeout', 150)) * (1 if self.tier == 'quick' else 6)
        for attempt in (0, 1):
            for f in glob.glob(slot + '*'):
                os.unlink(f)
            t = time.time()
            if self.stop() and attempt == 0:
                self.cut = True
                return False
            rc, out, to = run_cmd(cmd, env, timeout, cwd=self.tmp, stop=self.stop)
            if to and self.stop() and attempt == 0:
                self.cut = True
                return False
            wall = time.time() - t
            stats = [json.loads(x) for x in re.findall(r'^VTSTATS (\{.*\})$', out, re.M)]
            fails = []
            for x in re.findall(r'VTFAIL (\{.*\})\r?$', out, re.M):
                try:
                    fails.append(json.loads(x))
                except ValueError:
                    fails.append({'key': 'garbled', 'case': '', 'detail': x[:300], 'rank': -1})
            want = np_ or 1
            complete = rc == 0 and len(stats) == want and not to
            label = ''
            labels = {}
            for f in sorted(glob.glob(slot + '*')):
                if f.endswith('.sigs'):
                    continue
                with open(f, 'rb') as h:
                    labels[os.path.basename(f)] = h.read(4096).split(b'\0')[0].decode('utf-8', 'replace')
            label = ' | '.join(v for v in labels.values())[:1500]
            abnormal = self.classify(out, rc, to, part, label)
            # a crash or report is a fact about the execution; a timeout or an
            # unexplained ending is retried once before it counts
            if complete or abnormal or fails:
                break
            if attempt == 0:
                print('note: %s/%s rerun (rc=%s timeout=%s) %s' % (self.pid, name, rc, to, out[-600:].strip()), flush=True)
        res = []
        for f in fails:
            res.append(dict(key=f['key'], part=name, case=f.get('case'), detail=f.get('detail'), rank=f.get('rank')))
        for k, d in abnormal:
            res.append(dict(key=k, part=name, case=label, detail=d))
        if not complete and not res:
            if to:
                res.append(dict(key='hang:%s' % name, part=name, case=label,
                                detail='no end within %d s, twice' % timeout))
            else:
                raise Harness('part %s: unexplained ending rc=%s stats=%d/%d at "%s"\n%s' % (name, rc, len(stats), want, label, out[-3000:]))
        for r in res:
            r.update(seed=seed, scale=scale, np=np_, cmd=' '.join(cmd), tail=out[-3000:])
        sg = self.sigs.setdefault(name, set())
        for f in glob.glob(slot + '*.sigs'):
            with open(f, 'rb') as h:
                b = h.read()
            sg.update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
        if os.environ.get('VERIF_VERBOSE'):
            print('[run %.1fs] %s np=%s seed=%s rc=%s evals=%s distinct=%d fails=%d' %
                  (wall, name, np_, seed, rc, sum(s['evals'] for s in stats), len(sg), len(res)), flush=True)
            if os.environ.get('VERIF_VERBOSE') == '2':
                print(out[-3000:])
        self.violations += res
        for s in stats:
            s['np'] = np_
            s['seed'] = seed
            s['wall'] = round(wall, 2)
        self.stats += stats
        return complete

    def run(self):
        self.tmp = tempfile.mkdtemp(prefix='vt_%s_' % self.pid, dir=os.environ.get('VERIF_SCRATCH', '/tmp'))
        t0 = self.t0 = time.time()
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            self.known = set((x['property'], x['key']) for x in json.load(f)['findings'])
        try:
            self.build()
            tb = time.time() - t0
            tasks = []
            for p in self.parts:
                for r in p.get('runs', [{}]):
                    reps = r.get('seeds', 1) if self.tier == 'quick' else r.get('tseeds', r.get('seeds', 1) * 4)
                    scale = r.get('scale', 1.0) * (1.0 if self.tier == 'quick' else r.get('tscale', p.get('tscale', 8.0)))
                    for i in range(reps):
                        tasks.append((p, r, self.seed * 1000 + i, scale))
            # serial tasks share the machine; multi-process ones weigh their process count
            import threading
            cond = threading.Condition()
            free = [JOBS]

            def go(a):
                i, (p, r, s, sc) = a
                w = min(JOBS, p.get('weight', max(1, r.get('np', 0))))
                with cond:
                    while free[0] < w:
                        cond.wait()
                    free[0] -= w
                try:
                    return self.one(p, r, s, sc, i)
                finally:
                    with cond:
                        free[0] += w
                        cond.notify_all()
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(go, enumerate(tasks)))
            self.wall_build = tb
        finally:
            if not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(self.tmp, ignore_errors=True)
        self.wall = time.time() - t0
        return self.verdict()

    # ---- verdict --------------------------------------------------------
    def verdict(self):
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            kf = json.load(f)
        known = {(x['property'], x['key']): x for x in kf['findings']}
        new, seen = [], {}
        for v in self.violations:
            k = (self.pid, v['key'])
            if k in known:
                seen[k] = known[k]
            else:
                new.append(v)
        evals = sum(s['evals'] for s in self.stats)
        distinct = sum(len(s) for s in self.sigs.values())
        counters = {}
        samples = []
        for s in self.stats:
            for k, n in s['counters'].items():
                counters[k] = counters.get(k, 0) + n
            samples += [(s['part'], x) for x in s['samples']]
        pick, perpart = [], {}
        for p, x in samples:
            if perpart.get(p, 0) < 4 and x not in pick:
                perpart[p] = perpart.get(p, 0) + 1
                pick.append(x)
        per = {}
        for s in self.stats:
            e = per.setdefault(s['part'], {'evaluations': 0, 'cases': 0, 'runs': 0, 'processes': []})
            e['evaluations'] += s['evals']
            e['cases'] += s['cases']
            e['runs'] += 1
            if s['np'] and s['np'] not in e['processes']:
                e['processes'].append(s['np'])
        for p, e in per.items():
            e['distinct'] = len(self.sigs.get(p, ()))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': {'evaluations': evals, 'distinct_nontrivial': distinct, 'rule': self.rule,
                           'samples': pick[:40], 'parts': per, 'counters': counters,
                           'known_findings_seen': sorted(k[1] for k in seen)},
              'assumptions': self.assumptions, 'wall_s': round(self.wall, 2),
              'build_s': round(self.wall_build, 2),
              'violations': len(set(v['key'] for v in new))}
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, x in sorted(seen.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, x['what']))
        if new:
            done = set()
            for v in new:
                if v['key'] in done:
                    continue
                done.add(v['key'])
                if len(done) > 12:
                    break
                path = os.path.join(VERIF, 'evidence', 'replay', '%s_%d.json' % (self.pid, len(done)))
                with open(path, 'w') as f:
                    json.dump(dict(v, property=self.pid, tier=self.tier, base_seed=self.seed), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  key=%s part=%s case=%s\n  %s' % (v['key'], v['part'], (v.get('case') or '')[:400],
                                                         (v.get('detail') or '')[:900].replace('\n', '\n  ')))
            return 1
        # a run that observed too little decides nothing
        if self.cut:
            raise Harness('out of time: some runs were not made')
        missing = [p['name'] for p in self.parts if not any(s['part'] == p['name'] and s['evals'] > 0 for s in self.stats)]
        if not self.only and (missing or distinct < self.min_distinct):
            if not seen or missing != []:
                bad = [m for m in missing if not any(v['part'] == m for v in self.violations)]
                if bad or distinct < self.min_distinct:
                    raise Harness('observed too little: parts without observations %s, distinct %d (need %d)' % (missing, distinct, self.min_distinct))
        print('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs)' %
              (self.pid, self.tier, self.seed, evals, distinct, self.wall, self.wall_build))
        return 0


def main():
    ap = argparse.ArgumentParser()
    if sys.argv[1:] == ['--selfcheck']:
        # nothing is prepared ahead of a check; only confirm that the tools are there
        for c in ('g++', 'mpirun'):
            if not shutil.which(c):
                print('missing: ' + c)
                sys.exit(2)
        sys.exit(0)
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--part', action='append')
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    # die as a unit: children run in their own sessions and are killed there
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(2))
    try:
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            sys.exit(Check(a.id, r['tier'], r['base_seed'], [r['part']]).run())
        sys.exit(Check(a.id, a.tier, seed, a.part).run())
    except Harness as e:
        print('ERROR: %s: no verdict: %s' % (a.id, e))
        sys.exit(2)


main()
