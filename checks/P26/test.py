# P26: the compiled binding modules against NumPy on the same data.
import sys, json, struct, mmap, random, importlib, gc
import numpy as np

A = {sys.argv[i][2:]: sys.argv[i + 1] for i in range(1, len(sys.argv) - 1) if sys.argv[i].startswith('--')}
SEED, SCALE, SLOT, GROUP = int(A['seed']), float(A['scale']), A['slot'], A['group']
R = random.Random('%d %s' % (SEED, GROUP))
NR = np.random.RandomState(SEED * 7 + len(GROUP))


class Ctx:
    cases = evals = fails = 0
    sigs, samples, keys, counters = {}, [], {}, {}
    label = ''

    def __init__(self):
        open(SLOT, 'wb').write(b'\0' * 4096)
        self.f = open(SLOT, 'r+b')
        self.m = mmap.mmap(self.f.fileno(), 4096)

    def begin(self, l):
        self.cases += 1
        self.label = l
        b = l.encode()[:4000] + b'\0'
        self.m[:len(b)] = b

    def note(self, l):
        self.label += ' ; ' + l
        b = self.label.encode()[:4000] + b'\0'
        self.m[:len(b)] = b

    def ok(self, sig, n=1):
        self.evals += n
        h = 1469598103934665603
        for c in sig.encode():
            h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
        if h not in self.sigs:
            self.sigs[h] = 1
            if len(self.samples) < 12 and (len(self.samples) < 6 or len(self.sigs) % 97 == 0):
                self.samples.append(sig[:300])

    def fail(self, key, detail):
        self.fails += 1
        self.keys[key] = self.keys.get(key, 0) + 1
        if self.keys[key] <= 3:
            print('VTFAIL ' + json.dumps(dict(key=key, case=self.label[-900:], detail=str(detail)[:600].replace('\n', ' '), rank=0)), flush=True)

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    def end(self):
        with open(SLOT + '.sigs', 'wb') as f:
            f.write(struct.pack('<%dQ' % len(self.sigs), *self.sigs))
        print('VTSTATS ' + json.dumps(dict(part=A['part'], rank=0, cases=self.cases, evals=self.evals, distinct=len(self.sigs),
                                           fails=self.fails, samples=self.samples, counters=self.counters)), flush=True)


C = Ctx()


def n(base):
    return max(1, int(base * SCALE + .5))


import library
LIB = library.library()
import support
import types_
import math_types_ as MT
import signal_types_ as ST

SUF = {'f': np.float32, 'd': np.float64, 'cf': np.complex64, 'cd': np.complex128, 'i': np.int32, 'b': np.bool_}
BLK = {s: importlib.import_module('_block_' + s) for s in SUF}
EPS = {'f': 1.2e-7, 'cf': 1.2e-7, 'd': 2.3e-16, 'cd': 2.3e-16}


def mod(name, s):
    return importlib.import_module('_%s_%s' % (name, s))


def cx(s):
    return s[0] == 'c'


def values(s, shape, lo=-4.0, hi=4.0):
    if s == 'b':
        return NR.randint(0, 2, shape).astype(np.bool_)
    if s == 'i':
        return NR.randint(1, 90, shape).astype(np.int32)
    a = NR.uniform(lo, hi, shape)
    if cx(s):
        a = a + 1j * NR.uniform(lo, hi, shape)
    return a.astype(SUF[s])


def scalar(s):
    return values(s, (1,))[0].item()


def rslice(k):
    """a slice of an axis of length k, not empty unless k is, any step"""
    while True:
        step = R.choice([1, 1, 1, 2, 3, -1, -1, -2, -3, None])
        f = lambda: None if R.random() < .3 else R.randint(-k - 2, k + 2)
        s = slice(f(), f(), step)
        if len(range(*s.indices(k))) or R.random() < .05 or k == 0:
            return s


def same(a, b, tol=0):
    """elementwise: equal, both NaN, or within tol times the magnitude"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    if a.dtype != b.dtype:
        return 'type %s, expected %s' % (a.dtype, b.dtype)
    if a.size == 0:
        return ''
    w = a.astype(np.complex128), b.astype(np.complex128)
    with np.errstate(all='ignore'):
        bad = ~((w[0] == w[1]) | (np.isnan(w[0]) & np.isnan(w[1])) | (np.abs(w[0] - w[1]) <= tol))
    if not bad.any():
        return ''
    i = tuple(int(x[0]) for x in np.nonzero(bad))
    return 'at %s got %r expected %r' % (i, a[i], b[i])


def read(b):
    """the values of a block, element by element"""
    sh = b.shape
    a = np.empty(sh, dtype=b.dtype)
    for i in np.ndindex(*sh):
        a[i] = b.get(*i)
    return a


def make(s, a):
    """a block holding a, made in one of the ways there are"""
    k = R.randint(0, 3)
    m = BLK[s]
    if k == 0 and a.ndim <= 2:
        return m.block(a)
    if k == 1 and a.ndim <= 2:
        big = np.zeros(tuple(2 * x for x in a.shape), dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return m.block(v)
    # (a length and a whole number are taken for rows and columns)
    whole = s in 'ib' and a.ndim == 1
    b = m.block(*a.shape) if k == 2 or whole else m.block(*(a.shape + (scalar(s),)))
    if R.random() < .5:
        np.asarray(b)[...] = a
    else:
        for i in np.ndindex(*a.shape):
            b.put(*(i + (a[i].item(),)))
    return b


def sub(s, b, a, desc):
    """one random subblock of b and the matching view of a"""
    ops = ['slice']
    if a.ndim == 2:
        ops += ['row', 'col', 'diag', 'slice']
    if cx(s):
        ops += ['real', 'imag']
    op = R.choice(ops)
    if min(a.shape) == 0 and op != 'slice':
        op = 'slice'
    if op == 'slice':
        sl = [rslice(k) for k in a.shape]
        return s, BLK[s].subblock(b, *sl), a[tuple(sl)], '%s[%s]' % (desc, ','.join('%s:%s:%s' % (x.start, x.stop, x.step) for x in sl))
    if op == 'row':
        i = R.randint(-a.shape[0], a.shape[0] - 1)
        return s, b.row(i), a[i], '%s.row(%d)' % (desc, i)
    if op == 'col':
        i = R.randint(-a.shape[1], a.shape[1] - 1)
        return s, b.col(i), a[:, i], '%s.col(%d)' % (desc, i)
    if op == 'diag':
        return s, b.diag(), np.einsum('ii->i', a[:min(a.shape), :min(a.shape)]), desc + '.diag()'
    t = s[1:]
    return t, (b.real() if op == 'real' else b.imag()), (a.real if op == 'real' else a.imag), '%s.%s()' % (desc, op)


KINDS = [('f', 1), ('d', 1), ('cf', 1), ('cd', 1), ('i', 1), ('b', 1), ('f', 2), ('d', 2), ('cf', 2), ('cd', 2), ('i', 2), ('b', 2)]


def avail(k):
    return k in KINDS


def view(s, shape_of=None, dims=(1, 2)):
    """root block and array, and a view of both after up to three selections"""
    d = R.choice([x for x in dims if avail((s, x))])
    shape = tuple(R.randint(1, 9) for _ in range(d))
    a = values(s, shape)
    b = make(s, a)
    a = a.copy()
    C.begin('%s %s' % (s, shape))
    v = (s, b, a, 'b')
    for _ in range(R.randint(0, 3)):
        if v[1].size() == 0:
            break
        v = sub(*v)
    C.note(v[3])
    return s, b, a, v


def fixed(s, shape, a=None, dims=None):
    """a block of this shape, often a strided part of a larger one; and its values"""
    if a is None:
        a = values(s, shape)
    k = R.randint(0, 4)
    if k < 2:
        return make(s, a), 'whole'
    if k == 2 and len(shape) == 1 and avail((s, 2)):
        m = values(s, (shape[0] + R.randint(0, 2), R.randint(2, 4)))
        j = R.randint(0, m.shape[1] - 1)
        b = BLK[s].block(m)
        c = BLK[s].subblock(b.col(j), slice(0, shape[0]))
        np.asarray(c)[...] = a
        return c, 'column'
    st = [R.choice([1, 2, 3, -1, -2]) for _ in shape]
    big = values(s, tuple(x * abs(t) + 3 for x, t in zip(shape, st)))
    b = BLK[s].block(big)
    sl = []
    for x, t in zip(shape, st):
        o = R.randint(0, 2)
        sl.append(slice(o, o + x * t, t) if t > 0 else slice(o + (x - 1) * -t, None if o + t < 0 else o + t, t))
    c = BLK[s].subblock(b, *sl)
    assert c.shape == shape, (c.shape, shape, sl)
    np.asarray(c)[...] = a
    return c, 'steps %s' % st


# ---- views ---------------------------------------------------------------
def check_view(key, v):
    s, b, a, desc = v
    if b.dtype != a.dtype:
        return C.fail(key + ':dtype', '%s, expected %s' % (b.dtype, a.dtype))
    if tuple(b.shape) != a.shape or b.size() != a.size or any(b.size(a.ndim, d) != a.shape[d] for d in range(a.ndim)):
        return C.fail(key + ':shape', '%s, expected %s' % (b.shape, a.shape))
    q = same(read(b), a)
    if q:
        return C.fail(key + ':get', q)
    q = same(np.asarray(b), a)
    if q:
        return C.fail(key + ':array', q)
    return True


def mutate(v):
    """change both the same way; returns a description"""
    s, b, a, desc = v
    op = R.choice(['put', 'array', 'assign', 'assign-scalar', 'op', 'op-scalar', 'put'])
    if a.size == 0:
        op = 'assign-scalar'
    if op == 'put':
        i = tuple(R.randrange(k) for k in a.shape)
        x = scalar(s)
        b.put(*(i + (x,)))
        a[i] = x
    elif op == 'array':
        x = values(s, a.shape)
        np.asarray(b)[...] = x
        a[...] = x
    elif op == 'assign':
        x = values(s, a.shape)
        o, w = fixed(s, a.shape, x)
        op += ' ' + w
        b.assign(o)
        a[...] = x
    elif op == 'assign-scalar':
        x = scalar(s)
        b.assign(x)
        a[...] = x
    elif s == 'b':
        return mutate(v)
    else:
        o = R.choice('+-*/')
        if op == 'op-scalar':
            x = y = scalar(s)
        else:
            y = values(s, a.shape)
            x, w = fixed(s, a.shape, y)
            op += ' ' + w
        op += o
        with np.errstate(all='ignore'):
            if o == '+': b += x; r = a + y
            elif o == '-': b -= x; r = a - y
            elif o == '*': b *= x; r = a * y
            else:
                # (Boost.Python binds `/=` by its Python 2 name)
                r = b.__idiv__(x)
                if r is NotImplemented: raise TypeError('/=')
                r = np.trunc(a / y) if s == 'i' else a / y
        r = np.asarray(r).astype(a.dtype)
        got = read(b)
        q = same(got, r, 8 * EPS[s] * (np.abs(r) + 1) if cx(s) else 0)
        if q:
            C.note(op)
            C.fail('view:compound', '%s: %s' % (op, q))
            return None
        a[...] = got
    return op


def views():
    for _ in range(n(700)):
        s = R.choice(['f', 'd', 'cf', 'cd', 'i', 'b'])
        s, b, a, v = view(s)
        if not check_view('view', v):
            continue
        good = True
        for _ in range(R.randint(1, 4)):
            op = mutate(v)
            if op is None:
                good = False
                break
            C.note(op)
            if not check_view('view-written', v):
                good = False
                break
            q = same(read(b), a)
            if q:
                C.fail('parent-written', q)
                good = False
                break
        if not good:
            continue
        c = v[1].copy()
        q = same(read(c), v[2])
        if q:
            C.fail('copy', q)
            continue
        if v[2].size:
            c.assign(scalar(v[0]))
            q = same(read(v[1]), v[2])
            if q:
                C.fail('copy:shares', q)
                continue
        if v[0] not in 'ib':
            q = same(read(-v[1]), -v[2])
            if q:
                C.fail('neg', q)
                continue
        o, w = fixed(v[0], v[2].shape, np.where(values('b', v[2].shape), v[2], values(v[0], v[2].shape)).astype(v[2].dtype)) if v[2].size else (v[1], 'same')
        q = same(read(v[1] == o), v[2] == read(o))
        if q:
            C.fail('eq', w + ': ' + q)
            continue
        C.ok(C.label, 1 + v[2].size)
    # arrays keep the data of their block alive, and blocks that of their parent
    for _ in range(n(60)):
        s = R.choice(['f', 'd', 'cf', 'cd', 'i', 'b'])
        C.begin('lifetime ' + s)
        s, b, a, v = view(s)
        x = np.asarray(v[1])
        w = v[2].copy()
        how = R.choice(['root', 'all'])
        C.note('delete ' + how)
        del b
        if how == 'all':
            v = None
        gc.collect()
        junk = [BLK[s].block(values(s, a.shape)) if a.ndim < 3 else None for _ in range(4)]
        q = same(x, w)
        if not q and v is not None:
            q = same(read(v[1]), w)
        if not q:
            x[...] = 1
        if q:
            C.fail('lifetime', q)
        else:
            C.ok(C.label + how, 1 + w.size)
    # blocks made from arrays are copies
    for _ in range(n(60)):
        s = R.choice(['f', 'd', 'cf', 'cd', 'i', 'b'])
        d = R.choice([x for x in (1, 2) if avail((s, x))])
        shape = tuple(R.randint(1, 6) for _ in range(d))
        C.begin('from array %s %s' % (s, shape))
        big = values(s, tuple(3 * x for x in shape))
        x = big[tuple(slice(0, None, 3) for _ in shape)]
        if R.random() < .5:
            x = x[::-1]
        if d == 2 and R.random() < .5:
            x = x.T
        keep = x.copy()
        b = BLK[s].block(x)
        x[...] = 0
        q = same(read(b), keep)
        if not q:
            np.asarray(b)[...] = 1
            q = same(x, np.zeros_like(x))
        if q:
            C.fail('from-array', q)
        else:
            C.ok(C.label, x.size)


# ---- element-wise functions, reductions, products --------------------------------
def conjmul(a, b):
    return a * np.conj(b)


ALL = {
    'add': (2, lambda a, b: a + b), 'sub': (2, lambda a, b: a - b), 'mul': (2, lambda a, b: a * b), 'div': (2, lambda a, b: a / b),
    'am': (3, lambda a, b, c: (a + b) * c), 'ma': (3, lambda a, b, c: a * b + c), 'msb': (3, lambda a, b, c: a * b - c), 'sbm': (3, lambda a, b, c: (a - b) * c),
    'expoavg': (3, lambda a, b, c: a * b + (1 - a) * c),
    'cos': (1, np.cos), 'cosh': (1, np.cosh), 'sin': (1, np.sin), 'sinh': (1, np.sinh), 'tan': (1, np.tan), 'tanh': (1, np.tanh),
    'exp': (1, np.exp), 'neg': (1, lambda a: -a), 'recip': (1, lambda a: 1 / a), 'sq': (1, lambda a: a * a),
    'mag': (1, np.abs), 'magsq': (1, lambda a: a.real * a.real + a.imag * a.imag),
    'maxmg': (2, lambda a, b: np.maximum(np.abs(a), np.abs(b))), 'minmg': None, 'eq': (2, lambda a, b: a == b), 'ne': (2, lambda a, b: a != b),
    'maxmgsq': (2, lambda a, b: np.maximum(np.abs(a) ** 2, np.abs(b) ** 2)),
}
REAL = {
    'acos': (1, np.arccos, -.99, .99), 'asin': (1, np.arcsin, -.99, .99), 'atan': (1, np.arctan), 'atan2': (2, np.arctan2), 'ceil': (1, np.ceil),
    'exp10': (1, lambda a: 10. ** a), 'euler': (1, lambda a: np.exp(1j * a)), 'floor': (1, np.floor), 'fmod': (2, np.fmod), 'ge': (2, lambda a, b: a >= b),
    'gt': (2, lambda a, b: a > b), 'le': (2, lambda a, b: a <= b), 'lt': (2, lambda a, b: a < b), 'hypot': (2, np.hypot), 'max': (2, np.maximum), 'min': (2, np.minimum),
    'minmg': (2, lambda a, b: np.minimum(np.abs(a), np.abs(b))), 'minmgsq': (2, lambda a, b: np.minimum(np.abs(a) ** 2, np.abs(b) ** 2)),
    'log': (1, np.log, .1, 9), 'log10': (1, np.log10, .1, 9), 'sqrt': (1, np.sqrt, 0, 9), 'rsqrt': (1, lambda a: 1 / np.sqrt(a), .1, 9), 'pow': (2, lambda a, b: a ** b, .1, 4),
    'land': (2, lambda a, b: (a != 0) & (b != 0)), 'lor': (2, lambda a, b: (a != 0) | (b != 0)), 'lxor': (2, lambda a, b: (a != 0) ^ (b != 0)), 'lnot': (1, lambda a: a == 0),
    'ite': (3, lambda a, b, c: np.where(a != 0, b, c)), 'is_finite': (1, np.isfinite), 'is_nan': (1, np.isnan), 'is_normal': (1, lambda a: np.isfinite(a) & (a != 0)),
}
CPLX = {
    'arg': (1, np.angle), 'conj': (1, np.conj), 'real': (1, lambda a: a.real), 'imag': (1, lambda a: a.imag), 'jmul': (2, conjmul),
    'log': (1, np.log), 'log10': (1, np.log10), 'sqrt': (1, np.sqrt), 'rsqrt': (1, lambda a: 1 / np.sqrt(a)), 'pow': (2, lambda a, b: a ** b),
    'minmgsq': (2, lambda a, b: np.minimum(np.abs(a) ** 2, np.abs(b) ** 2)), 'minmg': (2, lambda a, b: np.minimum(np.abs(a), np.abs(b))),
    'is_finite': (1, np.isfinite), 'is_nan': (1, np.isnan), 'is_normal': (1, lambda a: np.isfinite(a)),
}


def tolof(s, r, k=64):
    if s not in EPS:
        return 0
    with np.errstate(all='ignore'):
        m = np.abs(r).astype(float)
        return k * EPS[s] * (m + 1)


def elementwise(s):
    m = mod('elementwise', s)
    tab = dict(ALL)
    tab.update(CPLX if cx(s) else REAL)
    for f, d in tab.items():
        if d is None or not hasattr(m, f):
            if d is not None and not (cx(s) and f in ('minmg', 'minmgsq')):   # (not exported for complex values)
                C.fail('elementwise:missing', '%s in _elementwise_%s' % (f, s))
            continue
        for _ in range(n(4)):
            shape = tuple(R.randint(1, 7) for _ in range(R.randint(1, 2)))
            C.begin('%s %s %s' % (f, s, shape))
            lo, hi = d[2:4] if len(d) > 2 else (-2.0, 2.0)
            ar, bl = [], []
            for j in range(d[0]):
                x = values(s, shape, lo, hi)
                if f in ('land', 'lor', 'lxor', 'lnot') or (f == 'ite' and j == 0):
                    x = (x * values('b', shape)).astype(x.dtype)
                if f in ('eq', 'ne', 'ge', 'le', 'lt', 'gt') and j:
                    x = np.where(values('b', shape), ar[0], x).astype(x.dtype)
                if f in ('is_finite', 'is_nan', 'is_normal'):
                    x = np.where(values('b', shape), x, NR.choice([np.nan, np.inf, -np.inf, 0. if not cx(s) else 1. + 1.j], shape)).astype(x.dtype)
                b, w = fixed(s, shape, x)
                ar.append(x)
                bl.append(b)
                C.note(w)
            try:
                res = getattr(m, f)(*bl)
            except Exception as e:
                C.fail('elementwise:' + f, '%s: %s' % (type(e).__name__, e))
                continue
            with np.errstate(all='ignore'):
                r = d[1](*[x.astype(np.complex128 if cx(s) else np.float64) for x in ar])
            want = {'f': 'f', 'i': 'f', 'u': 'f', 'b': 'b', 'c': 'c'}[np.asarray(r).dtype.kind]
            t = 'b' if want == 'b' else ('c' if want == 'c' else '') + s[-1]
            # mapping of the result type: bool stays, magnitudes of complex are real
            r = np.asarray(r).astype(SUF[t])
            scale = 1 + sum(np.abs(x).max() for x in ar) ** 2 if f not in ('eq', 'ne') else 1
            if f in ('fmod',):      # the remainder may wrap where the quotient is next to an integer
                r = np.fmod(ar[0], ar[1])
            if f in ('is_finite', 'is_nan', 'is_normal'):
                scale = 1
            q = same(read(res), r, tolof(s, r) * (scale if np.isfinite(scale) else 1) if t != 'b' else 0)
            if q:
                C.fail('elementwise:' + f, q)
                continue
            q = ''
            for x, b in zip(ar, bl):
                q = q or same(read(b), x)
            if q:
                C.fail('elementwise:operand', f + ': ' + q)
                continue
            C.ok(C.label, r.size)


def reductions(s):
    m = mod('reductions', s)
    for f in ('meanval', 'sumval', 'maxval', 'minval'):
        for _ in range(n(12)):
            shape = tuple(R.randint(1, 8) for _ in range(R.randint(1, 2)))
            C.begin('%s %s %s' % (f, s, shape))
            b, w = fixed(s, shape)
            C.note(w)
            a = read(b)
            try:
                r = getattr(m, f)(b)
            except Exception as e:
                C.fail('reduction:' + f, '%s: %s' % (type(e).__name__, e))
                continue
            if f in ('meanval', 'sumval'):
                want = getattr(a.astype(np.float64), f[:-3])()
                if abs(r - want) > 4 * a.size * EPS[s] * (1 + np.abs(a).max()):
                    C.fail('reduction:' + f, '%r, expected %r' % (r, want))
                    continue
            else:
                want = getattr(a, f[:3])().item()
                i = r[1] if isinstance(r[1], tuple) else (r[1],)
                if r[0] != want or len(i) != a.ndim or a[i] != want:
                    C.fail('reduction:' + f, '%r, expected %r' % (r, want))
                    continue
            C.ok(C.label, a.size)


def products(s):
    m = mod('matvec', s)
    for _ in range(n(60)):
        i, j, k = (R.randint(1, 7) for _ in range(3))
        f = R.choice(['dot', 'trans', 'vm', 'mv', 'mm', 'vmmul0', 'vmmul1'] + (['herm'] if cx(s) else []))
        C.begin('%s %s %s' % (f, s, (i, j, k)))
        sh = {'dot': [(i,), (i,)], 'trans': [(i, j)], 'herm': [(i, j)], 'vm': [(i,), (i, j)], 'mv': [(i, j), (j,)], 'mm': [(i, j), (j, k)],
              'vmmul0': [(j,), (i, j)], 'vmmul1': [(i,), (i, j)]}[f]
        bl, ar = [], []
        for x in sh:
            b, w = fixed(s, x)
            C.note(w)
            bl.append(b)
            ar.append(read(b))
        try:
            if f == 'dot': r = m.dot(*bl); want = (ar[0] * ar[1]).sum()
            elif f == 'trans': r = m.trans(bl[0]); want = ar[0].T
            elif f == 'herm': r = m.herm(bl[0]); want = ar[0].conj().T
            elif f == 'vmmul0': r = m.vmmul(0, *bl); want = ar[0][None, :] * ar[1]
            elif f == 'vmmul1': r = m.vmmul(1, *bl); want = ar[0][:, None] * ar[1]
            else: r = m.prod(*bl); want = ar[0] @ ar[1]
        except Exception as e:
            C.fail('product:' + f, '%s: %s' % (type(e).__name__, e))
            continue
        got = np.array(r, dtype=SUF[s]) if f == 'dot' else read(r)
        q = same(got, np.asarray(want).astype(SUF[s]), 64 * EPS[s] * 40 * 8 if f not in ('trans', 'herm') else 0)
        for x, b in zip(ar, bl):
            q = q or same(read(b), x)
        if q:
            C.fail('product:' + f, q)
        else:
            C.ok(C.label, np.asarray(got).size)


def casts():
    import _cast
    tab = [(float, 'd'), (complex, 'cd'), (np.float32, 'f'), (np.complex64, 'cf'), (np.float64, 'd')]
    for _ in range(n(60)):
        t, s = R.choice(tab)
        src = R.choice(['i', 'f', 'd'])
        shape = tuple(R.randint(1, 6) for _ in range(R.randint(1, 2)))
        C.begin('cast %s to %s %s' % (src, t.__name__, shape))
        b, w = fixed(src, shape)
        a = read(b)
        try:
            r = _cast.as_type(t, b)
        except Exception as e:
            C.fail('cast', '%s: %s' % (type(e).__name__, e))
            continue
        q = same(read(r), a.astype(SUF[s]))
        if q:
            C.fail('cast', q)
        else:
            C.ok(C.label + w, a.size)


def math():
    for s in ('f', 'd', 'cf', 'cd'):
        elementwise(s)
        products(s)
    reductions('f')
    reductions('d')
    casts()


# ---- signal processing ------------------------------------------------------------
HINTS = [ST.alg_hint.time, ST.alg_hint.space, ST.alg_hint.noise]


def out(s, shape):
    return fixed(s, shape)[0]


def verify(key, o, want, s, tol, ins):
    q = same(read(o), np.asarray(want).astype(SUF[s]), tol)
    for b, a in ins:
        q = q or same(read(b), a)
    if q:
        C.fail(key, q)
        return False
    C.ok(C.label, np.asarray(want).size)
    return True


def ffts(s):
    c = cx(s)
    m = mod('fft', s)
    S = s[-1]
    cs = 'c' + S
    for _ in range(n(30)):
        k = R.randint(1, 40)
        inv = R.random() < .5
        if not c:
            k += k & 1
        sc = R.choice([1., .5, 2., 1. / k])
        num = R.choice([0, 1, 12, 100])
        C.begin('fft %s %s %d scale %s n %d' % (s, 'inv' if inv else 'fwd', k, sc, num))
        try:
            f = (m.ifft if inv else m.fft)(k, sc, num, R.choice(HINTS))
        except Exception as e:
            C.fail('fft:create', '%s: %s' % (type(e).__name__, e))
            continue
        ni = k // 2 + 1 if not c and inv else k
        no = k // 2 + 1 if not c and not inv else k
        if (f.input_size, f.output_size) != (ni, no) or f.forward != (not inv) or abs(f.scale - sc) > 1e-6:
            C.fail('fft:properties', (f.input_size, f.output_size, f.forward, f.scale))
            continue
        for call in range(3):
            x = values(cs if c or inv else S, (ni,))
            if not c and inv:
                x[0] = x[0].real
                x[-1] = x[-1].real
            d = x.astype(np.complex128)
            want = (np.fft.irfft(d, k) * k if inv else np.fft.rfft(d.real)) if not c else (np.fft.ifft(d) * k if inv else np.fft.fft(d))
            b, w = fixed(cs if c or inv else S, x.shape, x)
            C.note('call %s' % w)
            tol = 40 * EPS[S] * sc * (np.abs(x).sum() * 2 + 1)
            if c and R.random() < .4:
                C.note('in place')
                f(b)
                if not verify('fft:inplace', b, want * sc, cs, tol, []):
                    break
            else:
                ot = cs if c or not inv else S
                o, w = fixed(ot, (no,))
                C.note('to %s' % w)
                f(b, o)
                if not verify('fft', o, want * sc, ot, tol, [] if not c and inv else [(b, x)]):
                    break


def fftms(s):
    c = cx(s)
    m = mod('fftm', s)
    S = s[-1]
    cs = 'c' + S
    for _ in range(n(24)):
        r, k = R.randint(1, 12), R.randint(1, 12)
        ax = R.randint(0, 1)
        inv = R.random() < .5
        if not c:
            r += r & 1
            k += k & 1
        sc = R.choice([1., .5, 2.])
        C.begin('fftm %s %s %dx%d axis %d scale %s' % (s, 'inv' if inv else 'fwd', r, k, ax, sc))
        try:
            f = (m.ifftm if inv else m.fftm)(r, k, sc, ax, R.choice([0, 1, 12, 100]), R.choice(HINTS))
        except Exception as e:
            C.fail('fftm:create', '%s: %s' % (type(e).__name__, e))
            continue
        # axis 0: the rows are transformed, axis 1: the columns
        na = 1 - ax
        full = [r, k]
        half = list(full)
        half[na] = full[na] // 2 + 1
        ish = tuple(half if not c and inv else full)
        osh = tuple(half if not c and not inv else full)
        if (tuple(f.input_size), tuple(f.output_size)) != (ish, osh) or f.forward != (not inv) or abs(f.scale - sc) > 1e-6 or f.axis != ax:
            C.fail('fftm:properties', (f.input_size, f.output_size, f.forward, f.scale, f.axis))
            continue
        for call in range(2):
            x = values(cs if c or inv else S, ish)
            if not c and inv:
                y = np.moveaxis(x, na, 0)
                y[0] = y[0].real
                y[-1] = y[-1].real
            d = x.astype(np.complex128)
            L = full[na]
            want = (np.fft.irfft(d, L, axis=na) * L if inv else np.fft.rfft(d.real, axis=na)) if not c else (np.fft.ifft(d, axis=na) * L if inv else np.fft.fft(d, axis=na))
            b, w = fixed(cs if c or inv else S, x.shape, x)
            C.note('call %s' % w)
            tol = 40 * EPS[S] * sc * (np.abs(x).sum() * 2 + 1)
            if c and R.random() < .4:
                C.note('in place')
                f(b)
                if not verify('fftm:inplace', b, want * sc, cs, tol, []):
                    break
            else:
                ot = cs if c or not inv else S
                o, w = fixed(ot, osh)
                C.note('to %s' % w)
                f(b, o)
                if not verify('fftm', o, want * sc, ot, tol, [] if not c and inv else [(b, x)]):
                    break


def olen(sup, N, M, D):
    w = {'full': N + M - 1, 'same': N, 'min': N - M + 1}[sup]
    return (w + D - 1) // D


def convs(s):
    m = mod('conv', s)
    SY = {'none': ST.symmetry.none, 'odd': ST.symmetry.even_len_odd, 'even': ST.symmetry.even_len_even}
    SR = {'full': ST.support_region.full, 'same': ST.support_region.same, 'min': ST.support_region.min}
    for _ in range(n(36)):
        sy, sup = R.choice(list(SY)), R.choice(list(SR))
        kk, D = R.randint(1, 6), R.choice([1, 1, 2, 3])
        h = values(s, (kk,))
        full = h if sy == 'none' else np.concatenate([h, h[-2::-1] if sy == 'odd' else h[::-1]]) if kk > 1 or sy == 'even' else h
        M = len(full)
        N = R.randint(M, M + 20)
        P = olen(sup, N, M, D)
        C.begin('conv %s %s %s kernel %d in %d dec %d' % (s, sy, sup, kk, N, D))
        kb, w = fixed(s, h.shape, h)
        try:
            f = m.conv(kb, SY[sy], N, D, SR[sup], R.choice([0, 1, 50]), R.choice(HINTS))
        except Exception as e:
            C.fail('conv:create', '%s: %s' % (type(e).__name__, e))
            continue
        if (f.kernel_size, f.input_size, f.output_size, f.decimation) != (M, N, P, D) or f.symmetry != SY[sy] or f.support != SR[sup]:
            C.fail('conv:properties', (f.kernel_size, f.input_size, f.output_size, f.decimation, f.symmetry, f.support))
            continue
        for call in range(2):
            x = values(s, (N,))
            b, w = fixed(s, x.shape, x)
            o, w2 = fixed(s, (P,))
            C.note('call %s to %s' % (w, w2))
            y = np.convolve(x.astype(np.complex128), full.astype(np.complex128))
            off = {'full': 0, 'same': M // 2, 'min': M - 1}[sup]
            want = y[off:][::D][:P]
            f(b, o)
            if not verify('conv', o, want if cx(s) else want.real, s, 16 * M * EPS[s] * 40, [(b, x)]):
                break


def divisor(sup, N, M, k):
    if sup == 'min': return M
    if sup == 'full': return k + 1 if k < M - 1 else N + M - 1 - k if k >= N else M
    if k < M // 2: return k + (M + 1) // 2
    if k >= N - M // 2: return N - 1 + (M + 1) // 2 - k
    return M


def corrs(s):
    m = mod('corr', s)
    SR = {'full': ST.support_region.full, 'same': ST.support_region.same, 'min': ST.support_region.min}
    for _ in range(n(30)):
        sup = R.choice(list(SR))
        M = R.randint(1, 9)
        N = R.randint(M, M + 20)
        P = olen(sup, N, M, 1)
        C.begin('corr %s %s ref %d in %d' % (s, sup, M, N))
        try:
            f = m.corr(M, N, SR[sup], R.choice([0, 1, 50]), R.choice(HINTS))
        except Exception as e:
            C.fail('corr:create', '%s: %s' % (type(e).__name__, e))
            continue
        if (f.reference_size, f.input_size, f.output_size) != (M, N, P) or f.support != SR[sup]:
            C.fail('corr:properties', (f.reference_size, f.input_size, f.output_size, f.support))
            continue
        for call in range(3):
            un = R.random() < .5
            h, x = values(s, (M,)), values(s, (N,))
            hb, w0 = fixed(s, h.shape, h)
            b, w = fixed(s, x.shape, x)
            o, w2 = fixed(s, (P,))
            C.note('call %s %s %s to %s' % ('unbiased' if un else 'biased', w0, w, w2))
            sh = {'full': M - 1, 'same': M // 2, 'min': 0}[sup]
            want = np.zeros(P, np.complex128)
            for k in range(P):
                for i in range(M):
                    if 0 <= k + i - sh < N:
                        want[k] += complex(h[i]) * np.conj(complex(x[k + i - sh]))
                if un:
                    want[k] /= divisor(sup, N, M, k)
            f(ST.bias.unbiased if un else ST.bias.biased, hb, b, o)
            if not verify('corr', o, want if cx(s) else want.real, s, 16 * M * EPS[s] * 40, [(b, x), (hb, h)]):
                break


def firs(s):
    m = mod('fir', s)
    SY = {'none': ST.symmetry.none, 'odd': ST.symmetry.even_len_odd, 'even': ST.symmetry.even_len_even}
    for _ in range(n(30)):
        sy = R.choice(list(SY))
        kk = R.randint(2, 5)
        h = values(s, (kk,))
        full = h if sy == 'none' else np.concatenate([h, h[-2::-1] if sy == 'odd' else h[::-1]])
        D = R.choice([1, 1, 2, 3])
        M = len(full)
        D = min(D, M - 1)
        L = D * R.randint((M + D - 1) // D, (M + D - 1) // D + 6)
        save = R.random() < .6
        C.begin('fir %s %s kernel %d in %d dec %d %s' % (s, sy, kk, L, D, 'save' if save else 'no-save'))
        kb, w = fixed(s, h.shape, h)
        try:
            f = m.fir(kb, SY[sy], L, D, ST.obj_state.save if save else ST.obj_state.no_save, R.choice([0, 1, 50]), R.choice(HINTS))
        except Exception as e:
            C.fail('fir:create', '%s: %s' % (type(e).__name__, e))
            continue
        if (f.kernel_size, f.input_size, f.output_size, f.decimation) != (M, L, L // D, D) or f.symmetry != SY[sy] or f.state != (ST.obj_state.save if save else ST.obj_state.no_save):
            C.fail('fir:properties', (f.kernel_size, f.input_size, f.output_size, f.decimation))
            continue
        hist = np.zeros(0)
        for call in range(4):
            if R.random() < .2:
                f.reset()
                hist = np.zeros(0)
                C.note('reset')
            x = values(s, (L,))
            b, w = fixed(s, x.shape, x)
            o, w2 = fixed(s, (L // D,))
            C.note('call %s to %s' % (w, w2))
            if not save:
                hist = np.zeros(0)
            y = np.convolve(np.concatenate([hist, x.astype(np.float64)]), full.astype(np.float64))[len(hist):len(hist) + L]
            hist = np.concatenate([hist, x.astype(np.float64)])
            f(b, o)
            if not verify('fir', o, y[::D], s, 16 * M * EPS[s] * 40, [(b, x)]):
                break


def iirs(s):
    m = mod('iir', s)
    for _ in range(n(20)):
        K, L = R.randint(1, 3), R.randint(1, 16)
        save = R.random() < .6
        C.begin('iir %s sections %d in %d %s' % (s, K, L, 'save' if save else 'no-save'))
        bb, aa = values(s, (K, 3), -1, 1), values(s, (K, 2), -.4, .4)
        xb, w = fixed(s, bb.shape, bb)
        xa, w2 = fixed(s, aa.shape, aa)
        try:
            f = m.iir(xb, xa, L, ST.obj_state.save if save else ST.obj_state.no_save, R.choice([0, 1, 50]), R.choice(HINTS))
        except Exception as e:
            C.fail('iir:create', '%s: %s' % (type(e).__name__, e))
            continue
        if (f.kernel_size, f.input_size) != (2 * K, L):
            C.fail('iir:properties', (f.kernel_size, f.input_size))
            continue
        st = np.zeros((K, 2), np.complex128)
        for call in range(3):
            if R.random() < .2:
                f.reset()
                st[...] = 0
            if not save:
                st[...] = 0
            x = values(s, (L,))
            b, w = fixed(s, x.shape, x)
            o, w3 = fixed(s, (L,))
            C.note('call %s to %s' % (w, w3))
            y = []
            for v in x:
                v = complex(v)
                for j in range(K):
                    w0 = v - complex(aa[j, 0]) * st[j, 0] - complex(aa[j, 1]) * st[j, 1]
                    v = complex(bb[j, 0]) * w0 + complex(bb[j, 1]) * st[j, 0] + complex(bb[j, 2]) * st[j, 1]
                    st[j, 1], st[j, 0] = st[j, 0], w0
                y.append(v)
            y = np.array(y)
            f(b, o)
            if not verify('iir', o, y if cx(s) else y.real, s, 1000 * EPS[s] * (1 + np.abs(y).max()), [(b, x)]):
                break


def windows(s):
    m = mod('window', s)
    for _ in range(n(25)):
        k = R.randint(2, 60)
        f = R.choice(['blackman', 'hanning', 'kaiser', 'cheby'])
        C.begin('%s %s %d' % (f, s, k))
        if f == 'blackman': g, w = m.blackman(k), np.blackman(k)
        elif f == 'hanning': g, w = m.hanning(k), np.hanning(k + 2)[1:-1]
        elif f == 'kaiser':
            be = R.uniform(0, 9)
            g, w = m.kaiser(k, be), np.kaiser(k, np.float32(be))
        else:
            # real-valued, symmetric; the values are those of the C++ window (C++ coefficients are judged elsewhere)
            g = m.cheby(k, R.uniform(20, 90))
            w = read(g)[::-1]
        q = same(read(g), w.astype(SUF[s]), 2e-4 if s == 'f' else 1e-7)
        if q:
            C.fail('window:' + f, q)
        else:
            C.ok(C.label, k)


def swaps(s):
    m = mod('freqswap', s)
    for _ in range(n(25)):
        shape = tuple(R.randint(1, 9) for _ in range(R.randint(1, 2)))
        C.begin('freqswap %s %s' % (s, shape))
        b, w = fixed(s, shape)
        a = read(b)
        o, w2 = fixed(s, shape)
        C.note('%s to %s' % (w, w2))
        m.freqswap(b, o)
        verify('freqswap', o, np.fft.fftshift(a), s, 0, [(b, a)])


def clips(s):
    m = mod('clip', s)
    for _ in range(n(25)):
        shape = tuple(R.randint(1, 9) for _ in range(R.randint(1, 2)))
        b, w = fixed(s, shape)
        a = read(b)
        o, w2 = fixed(s, shape)
        inv = R.random() < .5
        C.begin('%s %s %s %s to %s' % ('invclip' if inv else 'clip', s, shape, w, w2))
        l, mi, u = sorted(float(np.float32(R.uniform(-3, 3))) for _ in range(3))
        c1, c2 = float(np.float32(R.uniform(-9, 9))), float(np.float32(R.uniform(-9, 9)))
        if inv:
            m.invclip(b, o, l, mi, u, c1, c2)
            want = np.where(a < l, a, np.where(a < mi, c1, np.where(a <= u, c2, a)))
        else:
            m.clip(b, o, l, u, c1, c2)
            want = np.where(a <= l, c1, np.where(a < u, a, c2))
        verify('clip', o, want, s, 0, [(b, a)])


def rands(s):
    m = mod('rand', s)
    for _ in range(n(25)):
        seed, port = R.randint(0, 99999), R.random() < .5
        g, h = m.rand(seed, port), m.rand(seed, port)
        f = R.choice(['randu', 'randn'])
        k, r, c = R.randint(1, 9), R.randint(1, 5), R.randint(1, 5)
        C.begin('%s %s seed %d portable %s %d %dx%d' % (f, s, seed, port, k, r, c))
        one = lambda o: SUF[s](getattr(o, f)())
        x0 = one(g)
        v = read(getattr(g, f)(k))
        mm = read(getattr(g, f)(r, c))
        x1 = one(g)
        want = [one(h) for _ in range(k + r * c + 2)]
        q = same(np.array([x0] + list(v) + list(mm.ravel()) + [x1]), np.array(want))
        if not q and f == 'randu' and not all(0 <= z.real <= 1 and 0 <= z.imag <= 1 for z in want):
            q = 'outside the unit interval'
        if not q and len(set(want)) < len(want) - 1:
            q = 'repeated numbers'
        if q:
            C.fail('rand', q)
        else:
            C.ok(C.label, len(want))


def signal():
    for s in ('f', 'd', 'cf', 'cd'):
        ffts(s)
        fftms(s)
        convs(s)
        corrs(s)
    for s in ('f', 'd'):
        firs(s)
        windows(s)
        swaps(s)
        clips(s)
    for s in ('f', 'd', 'cd'):
        iirs(s)
        rands(s)


# ---- solvers ---------------------------------------------------------------------
def wellc(s, i, j):
    a = values(s, (i, j), -1, 1)
    for k in range(min(i, j)):
        a[k, k] += R.choice([3, -3]) * 1.5
    return a.astype(SUF[s])


def close(key, got, want, s, k=2000):
    q = same(np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64), k * EPS[s] * (1 + np.abs(want).max()))
    if q:
        C.fail(key, q)
        return False
    C.ok(C.label, np.asarray(want).size)
    return True


def solvers():
    OP = {'n': MT.mat_op.ntrans, 't': MT.mat_op.trans, 'h': MT.mat_op.herm, 'c': MT.mat_op.conj}
    SD = {'l': MT.product_side.lside, 'r': MT.product_side.rside}
    for s in ('f', 'd'):
        lu, ch, qr, sv = (mod(x, s) for x in ('lud', 'chold', 'qrd', 'svd'))
        for _ in range(n(25)):
            k, c = R.randint(1, 7), R.randint(1, 4)
            a, b = wellc(s, k, k), values(s, (k, c))
            op = R.choice('nth' if cx(s) else 'nt')
            C.begin('lud %s %d rhs %d %s' % (s, k, c, op))
            f = lu.lud(k)
            for call in range(2):
                ab, w = fixed(s, a.shape, a)
                if not f.decompose(ab):
                    C.fail('lud:decompose', 'failed')
                    break
                bb, w1 = fixed(s, b.shape, b)
                x, w2 = fixed(s, b.shape)
                C.note('%s %s to %s' % (w, w1, w2))
                if not f.solve(OP[op], bb, x):
                    C.fail('lud:solve', 'failed')
                    break
                M = a.astype(np.float64) if op == 'n' else a.astype(np.float64).T
                if not close('lud', read(x), np.linalg.solve(M, b.astype(np.float64)), s):
                    break
                q = same(read(bb), b)
                if q:
                    C.fail('lud:operand', q)
                    break
        for _ in range(n(25)):
            k, c = R.randint(1, 7), R.randint(1, 4)
            g = wellc(s, k, k).astype(np.float64)
            a, b = (g @ g.T + np.eye(k)).astype(SUF[s]), values(s, (k, c))
            C.begin('chold %s %d rhs %d' % (s, k, c))
            try:
                f = ch.chold(R.choice([MT.mat_uplo.lower, MT.mat_uplo.upper]), k)
            except Exception as e:
                C.fail('chold:create', '%s: %s' % (type(e).__name__, e))
                break
            ab, w = fixed(s, a.shape, a)
            if not f.decompose(ab):
                C.fail('chold:decompose', 'failed')
                continue
            bb, w1 = fixed(s, b.shape, b)
            x, w2 = fixed(s, b.shape)
            C.note('%s %s to %s' % (w, w1, w2))
            if not f.solve(bb, x):
                C.fail('chold:solve', 'failed')
                continue
            close('chold', read(x), np.linalg.solve(a.astype(np.float64), b.astype(np.float64)), s, 40000)
        for _ in range(n(30)):
            j = R.randint(1, 6)
            i = R.randint(j, 8)
            c = R.randint(1, 4)
            a = wellc(s, i, j)
            A64 = a.astype(np.float64)
            what = R.choice(['lsqsol', 'covsol', 'rsol', 'prodq', 'llsqsol', 'covsol-fn'])
            st = R.choice(['saveq1', 'saveq'])
            C.begin('%s %s %dx%d rhs %d %s' % (what, s, i, j, c, st))
            ab, w = fixed(s, a.shape, a)
            C.note(w)
            if what == 'llsqsol':
                b = values(s, (i, c))
                bb, w1 = fixed(s, b.shape, b)
                x, w2 = fixed(s, (j, c))
                mod('llsqsol', s).llsqsol(ab, bb, x)
                close(what, read(x), np.linalg.lstsq(A64, b.astype(np.float64), rcond=None)[0], s)
                continue
            if what == 'covsol-fn':
                b = values(s, (j, c))
                bb, w1 = fixed(s, b.shape, b)
                x, w2 = fixed(s, (j, c))
                mod('covsol', s).covsol(ab, bb, x)
                close(what, read(x), np.linalg.solve(A64.T @ A64, b.astype(np.float64)), s, 20000)
                continue
            f = qr.qrd(i, j, getattr(MT.storage, 'qrd_' + st))
            if not f.decompose(ab):
                C.fail('qrd:decompose', 'failed')
                continue
            if what == 'lsqsol':
                b = values(s, (i, c))
                bb, w1 = fixed(s, b.shape, b)
                x, w2 = fixed(s, (j, c))
                if f.lsqsol(bb, x):
                    close(what, read(x), np.linalg.lstsq(A64, b.astype(np.float64), rcond=None)[0], s)
                else:
                    C.fail(what, 'failed')
            elif what == 'covsol':
                b = values(s, (j, c))
                bb, w1 = fixed(s, b.shape, b)
                x, w2 = fixed(s, (j, c))
                if f.covsol(bb, x):
                    close(what, read(x), np.linalg.solve(A64.T @ A64, b.astype(np.float64)), s, 20000)
                else:
                    C.fail(what, 'failed')
            else:
                # Q and R determine each other through A = Q R: read Q by multiplying with the identity
                p = j if st == 'saveq1' else i
                eye, w1 = fixed(s, (p, p), np.eye(p, dtype=SUF[s]))
                Q, w2 = fixed(s, (i, p))
                if not f.prodq(OP['n'], SD['l'], eye, Q):
                    C.fail('prodq', 'failed')
                    continue
                q = read(Q).astype(np.float64)
                if not close('prodq:orthogonal', q.T @ q, np.eye(p), s):
                    continue
                Rm = q.T @ A64
                if not close('prodq:triangular', np.tril(Rm, -1), np.zeros_like(Rm), s, 20000):
                    continue
                if what == 'prodq':
                    b = values(s, (c, i))
                    bb, w1 = fixed(s, b.shape, b)
                    x, w2 = fixed(s, (c, p))
                    if f.prodq(OP['n'], SD['r'], bb, x):
                        close('prodq:right', read(x), b.astype(np.float64) @ q, s)
                    else:
                        C.fail('prodq', 'failed')
                    b = values(s, (i, c))
                    bb, w1 = fixed(s, b.shape, b)
                    x, w2 = fixed(s, (p, c))
                    if f.prodq(OP['t'], SD['l'], bb, x):
                        close('prodq:transposed', read(x), q.T @ b.astype(np.float64), s)
                    else:
                        C.fail('prodq', 'failed')
                else:
                    b = values(s, (j, c))
                    op = R.choice('nt')
                    C.note(op)
                    bb, w1 = fixed(s, b.shape, b)
                    x, w2 = fixed(s, (j, c))
                    T = np.triu(Rm[:j])
                    if f.rsol(OP[op], bb, 2., x):
                        close('rsol', read(x), np.linalg.solve(T if op == 'n' else T.T, 2 * b.astype(np.float64)), s, 40000)
                    else:
                        C.fail('rsol', 'failed')
        for _ in range(n(25)):
            i, j = R.randint(1, 7), R.randint(1, 7)
            p = min(i, j)
            a = values(s, (i, j))
            A64 = a.astype(np.float64)
            us, vs = R.choice(['uvpart', 'uvfull']), R.choice(['uvpart', 'uvfull'])
            C.begin('svd %s %dx%d %s %s' % (s, i, j, us, vs))
            f = sv.svd(i, j, getattr(MT.storage, 'svd_' + us), getattr(MT.storage, 'svd_' + vs))
            ab, w = fixed(s, a.shape, a)
            d, w1 = fixed(s, (p,))
            C.note('%s to %s' % (w, w1))
            if not f.decompose(ab, d):
                C.fail('svd:decompose', 'failed')
                continue
            sig = read(d).astype(np.float64)
            if not close('svd:values', sig, np.linalg.svd(A64, compute_uv=False), s):
                continue
            U, w2 = fixed(s, (i, p))
            V, w3 = fixed(s, (j, p))
            if not f.u(0, p - 1, U) or not f.v(0, p - 1, V):
                C.fail('svd:uv', 'failed')
                continue
            u, v = read(U).astype(np.float64), read(V).astype(np.float64)
            if not close('svd:product', u @ np.diag(sig) @ v.T, A64, s):
                continue
            pu = i if us == 'uvfull' else p
            c = R.randint(1, 3)
            b = values(s, (pu, c))
            bb, w4 = fixed(s, b.shape, b)
            x, w5 = fixed(s, (i, c))
            if not f.produ(OP['n'], SD['l'], bb, x):
                C.fail('svd:produ', 'failed')
                continue
            if pu == p:
                close('svd:produ', read(x), u @ b.astype(np.float64), s)
        ts = mod('toepsol', s)
        for _ in range(n(25)):
            k = R.randint(1, 9)
            t = values(s, (k,), -.3, .3)
            t[0] = 3 + k * .3
            b = values(s, (k,))
            C.begin('toepsol %s %d' % (s, k))
            tb, w = fixed(s, t.shape, t)
            bb, w1 = fixed(s, b.shape, b)
            y, w2 = fixed(s, (k,))
            x, w3 = fixed(s, (k,))
            C.note('%s %s %s %s' % (w, w1, w2, w3))
            ts.toepsol(tb, bb, y, x)
            T = np.array([[t[abs(i - j)] for j in range(k)] for i in range(k)], dtype=np.float64)
            close('toepsol', read(x), np.linalg.solve(T, b.astype(np.float64)), s)


# ---- invalid requests ---------------------------------------------------------------
def refused(key, f, *blocks):
    """f must raise; the blocks keep their values"""
    before = [read(b) for b in blocks]
    try:
        f()
    except (RuntimeError, TypeError, ValueError, IndexError, OverflowError, ArithmeticError) as e:
        for b, a in zip(blocks, before):
            q = same(read(b), a)
            if q:
                return C.fail('errors:%s:changed' % key, q)
        C.count('refused ' + key)
        C.ok('%s %s %s' % (C.label, key, type(e).__name__))
    else:
        C.fail('errors:' + key, 'accepted')


def iadd(a, b): a += b
def imul(a, b): a *= b


def errors():
    for _ in range(n(150)):
        s = R.choice(['f', 'd', 'cf', 'cd', 'i'])
        k, r, c = R.randint(2, 6), R.randint(2, 6), R.randint(2, 6)
        v, m = fixed(s, (k,))[0], fixed(s, (r, c))[0]
        e = R.choice([0, 0, 1, 5, 100, 10 ** 6])
        C.begin('%s vector %d matrix %dx%d excess %d' % (s, k, r, c, e))
        x = scalar(s)
        what = R.choice(['get', 'put', 'row', 'col', 'neg', 'assign', 'op', 'from', 'fn', 'sub'])
        if what == 'get':
            refused('get', lambda: v.get(k + e), v)
            refused('get', lambda: m.get(r + e, 0), m)
            refused('get', lambda: m.get(0, c + e), m)
        elif what == 'put':
            refused('put', lambda: v.put(k + e, x), v)
            refused('put', lambda: m.put(r + e, 0, x), m)
            refused('put', lambda: m.put(0, c + e, x), m)
        elif what == 'neg':
            refused('get', lambda: v.get(-1 - e), v)
            refused('put', lambda: m.put(0, -1 - e, x), m)
        elif what == 'row':
            refused('row', lambda: m.row(r + e), m)
            refused('row', lambda: m.row(-r - 1 - e), m)
        elif what == 'col':
            refused('col', lambda: m.col(c + e), m)
            refused('col', lambda: m.col(-c - 1 - e), m)
        elif what == 'assign':
            refused('assign', lambda: v.assign(fixed(s, (k + 1 + e % 7,))[0]), v)
            refused('assign', lambda: v.assign(fixed(s, (k - 1,))[0]), v)
            refused('assign', lambda: m.assign(fixed(s, (r, c + 1))[0]), m)
            refused('assign', lambda: m.assign(fixed(s, (r - 1, c))[0]), m)
        elif what == 'op':
            refused('op', lambda: iadd(v, fixed(s, (k + 1 + e % 7,))[0]), v)
            refused('op', lambda: imul(v, fixed(s, (k - 1,))[0]), v)
            refused('op', lambda: iadd(m, fixed(s, (r, c + 1))[0]), m)
            refused('op', lambda: imul(m, fixed(s, (r - 1, c))[0]), m)
            refused('eq', lambda: v == fixed(s, (k - 1,))[0], v)
        elif what == 'from':
            o = R.choice([t for t in SUF if t != s])
            refused('from-type', lambda: BLK[s].block(values(o, (k,))))
            refused('from-dim', lambda: BLK[s].block(values(s, (2, 2, 2))))
            refused('from-other', lambda: BLK[s].block('abc'))
            refused('sub-type', lambda: BLK[s].subblock(BLK[o].block(values(o, (k,))), slice(0, 1)))
        elif what == 'fn' and s != 'i':
            em = mod('elementwise', s)
            refused('elementwise', lambda: em.add(v, fixed(s, (k - 1,))[0]), v)
            refused('elementwise', lambda: em.mul(m, fixed(s, (r, c - 1))[0]), m)
            refused('elementwise', lambda: em.am(v, v, fixed(s, (k - 1,))[0]), v)
            mm = mod('matvec', s)
            refused('dot', lambda: mm.dot(v, fixed(s, (k - 1,))[0]), v)
            refused('prod', lambda: mm.prod(m, fixed(s, (c + 1, 2))[0]), m)
            refused('prod', lambda: mm.prod(m, fixed(s, (c - 1,))[0]), m)
            refused('vmmul', lambda: mm.vmmul(0, fixed(s, (c - 1,))[0], m), m)
            refused('vmmul', lambda: mm.vmmul(1, fixed(s, (r - 1,))[0], m), m)
        elif what == 'sub':
            refused('sub-step', lambda: BLK[s].subblock(v, slice(0, k, 0)), v)
            refused('sub-dims', lambda: BLK[s].subblock(v, slice(0, 1), slice(0, 1)), v)
    for _ in range(n(30)):
        s = R.choice(['f', 'd', 'cf', 'cd'])
        k = R.randint(4, 12)
        C.begin('signal %s %d' % (s, k))
        cs = s if cx(s) else 'c' + s
        k += k & 1
        f = mod('fft', s).fft(k, 1., 0, HINTS[0])
        ni, no = f.input_size, f.output_size
        i0, o0 = fixed(s, (ni,))[0], fixed(cs, (no,))[0]
        refused('fft', lambda: f(fixed(s, (ni - 1,))[0], o0), o0)
        refused('fft', lambda: f(i0, fixed(cs, (no - 1,))[0]), i0)
        cv = mod('conv', s).conv(fixed(s, (3,))[0], ST.symmetry.none, k, 1, ST.support_region.full, 0, HINTS[0])
        x, y = fixed(s, (k,))[0], fixed(s, (k + 2,))[0]
        refused('conv', lambda: cv(fixed(s, (k - 1,))[0], y), y)
        refused('conv', lambda: cv(x, fixed(s, (k + 1,))[0]), x)
        co = mod('corr', s).corr(3, k, ST.support_region.full, 0, HINTS[0])
        h = fixed(s, (3,))[0]
        refused('corr', lambda: co(ST.bias.biased, fixed(s, (2,))[0], x, y), y, x)
        refused('corr', lambda: co(ST.bias.biased, h, fixed(s, (k - 1,))[0], y), y, h)
        refused('corr', lambda: co(ST.bias.biased, h, x, fixed(s, (k + 1,))[0]), x, h)
        if not cx(s):
            fi = mod('fir', s).fir(h, ST.symmetry.none, k, 1, ST.obj_state.save, 0, HINTS[0])
            refused('fir', lambda: fi(fixed(s, (k - 1,))[0], x), x)
            refused('fir', lambda: fi(x, fixed(s, (k - 1,))[0]), x)
            lu = mod('lud', s).lud(4)
            refused('lud', lambda: lu.decompose(fixed(s, (3, 4))[0]))
            lu.decompose(fixed(s, (4, 4), wellc(s, 4, 4))[0])
            b = fixed(s, (4, 2))[0]
            refused('lud', lambda: lu.solve(MT.mat_op.ntrans, b, fixed(s, (4, 3))[0]), b)
            refused('lud', lambda: lu.solve(MT.mat_op.ntrans, fixed(s, (3, 2))[0], b), b)
            refused('freqswap', lambda: mod('freqswap', s).freqswap(fixed(s, (k - 1,))[0], x), x)
            refused('clip', lambda: mod('clip', s).clip(fixed(s, (k - 1,))[0], x, 0., 1., 0., 1.), x)


globals()[GROUP]()
C.end()
