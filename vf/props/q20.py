"""Q20 matrices of operators"""
from .. import env  # noqa
import numpy as np
import sympy
from hypothesis import strategies as st

from .. import sem
from ..core import Discard, Property, ensure, shown
from ..gens import Ctx, chance, fixkinds, op as g_op, pick, scalar as g_scalar, world_js
from ..prog import Prog, degree, sym_of
from ..sem import World, close, low_block

from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.exceptions import NoConjugateMatrix, NonSquareMatrix
from qnet.algebra.core.matrix_algebra import (
    Matrix, block_matrix, diagm, hstackm, identity_matrix, permutation_matrix, vstackm, zerosm)
from qnet.algebra.core.operator_algebra import Operator, adjoint

PROP = Property('Q20', '')


# ------------------------------------------------------------------ generation
class MCtx:
    def __init__(self, ws, scal=False, numeric=True):
        self.ctx = Ctx(ws, trace=False, pinv=False, kets=True)
        self.scal = scal
        self.numeric = numeric


@st.composite
def entry(draw, mc):
    if mc.scal or chance(draw, 1, 3):
        if chance(draw, 1, 2):
            return ['sc', ['i', draw(st.sampled_from([0, 0, 1, 1, -1, 2])), 'p']]
        return ['sc', draw(g_scalar(mc.ctx, 0 if chance(draw, 1, 2) else 1))]
    if chance(draw, 1, 6):
        return ['sc', ['i', 0, 'p']]
    return draw(g_op(mc.ctx, draw(st.sampled_from([0, 0, 1, 2]))))


@st.composite
def leaf(draw, mc, n, m):
    k = draw(st.integers(0, 11))
    if k == 0 and n == m:
        return ['id', n]
    if k == 1:
        return ['zeros', n, m, pick(draw, ['float', 'int', 'object', 'complex'])]
    if k == 2 and n == m:
        return ['perm', draw(st.permutations(list(range(n))))]
    if k == 3 and mc.numeric:
        dt = pick(draw, ['int', 'float', 'complex'])
        el = {'int': lambda: [draw(st.integers(-3, 3)), 0], 'float': lambda: [draw(st.sampled_from([0.0, 0.5, -1.25, 2.0])), 0],
              'complex': lambda: [draw(st.sampled_from([0.0, 0.5, -1.25])), draw(st.sampled_from([0.0, 1.0, -0.5]))]}[dt]
        return ['num', dt, [[el() for _ in range(m)] for _ in range(n)]]
    if k == 4 and n == m and n > 1:
        return ['diag', [draw(entry(mc)) for _ in range(n)], 0]
    if k == 5 and n == m and n > 1:
        return ['diag', [draw(entry(mc)) for _ in range(n - 1)], draw(st.sampled_from([1, -1]))]
    if m == 1 and k == 6:
        return ['vec', [draw(entry(mc)) for _ in range(n)]]
    return ['mat', [[draw(entry(mc)) for _ in range(m)] for _ in range(n)], pick(draw, ['list', 'arr', 'Matrix', 'tuple'])]


UN = ['neg', 'dT', 'adj', 'dag', 'H', 'ew', 'ewargs', 'expand', 'simp', 'TT']


@st.composite
def mat(draw, mc, n, m, d):
    if d <= 0 or chance(draw, 1, 5):
        return draw(leaf(mc, n, m))
    sub = lambda a, b: draw(mat(mc, a, b, d - 1))
    k = draw(st.integers(0, 19))
    if k <= 1:
        return [pick(draw, ['add', 'sub']), sub(n, m), sub(n, m)]
    if k <= 4:
        q = draw(st.integers(1, 3))
        return ['mul', sub(n, q), sub(q, m)]
    if k <= 6:
        return [pick(draw, ['lmul', 'rmul', 'rmul']), draw(entry(mc)), sub(n, m)]
    if k == 7:
        return ['div', sub(n, m), draw(g_scalar(mc.ctx, 0))]
    if k == 8:
        return [pick(draw, ['addx', 'raddx', 'rsubx', 'subx']), draw(entry(mc)), sub(n, m)]
    if k <= 10:
        return [pick(draw, UN), sub(n, m)]
    if k == 11:
        return [pick(draw, ['T', 'Tp', 'adjT', 'adjT']), sub(m, n)]
    if k == 12 and mc.scal:
        return ['conj', sub(n, m)]
    if k == 12:
        return ['expand', sub(n, m)]
    if k <= 14:
        big_n, big_m = n + draw(st.integers(0, 2)), m + draw(st.integers(0, 1))
        i, j = draw(st.integers(0, big_n - n)), draw(st.integers(0, big_m - m))
        return ['slice', sub(big_n, big_m), i, i + n, j, j + m, pick(draw, ['pos', 'neg', 'open'])]
    if k == 15 and m > 1:
        q = draw(st.integers(1, m - 1))
        return ['hs', [sub(n, q), sub(n, m - q)]]
    if k == 16 and n > 1:
        q = draw(st.integers(1, n - 1))
        return ['vs', [sub(q, m), sub(n - q, m)]]
    if k in (17, 18) and n > 1 and m > 1:
        a, b = draw(st.integers(1, n - 1)), draw(st.integers(1, m - 1))
        return ['bm', sub(a, b), sub(a, m - b), sub(n - a, b), sub(n - a, m - b)]
    if k == 19 and n > 1:
        # rows in another order by fancy index or reversed
        return ['rev', sub(n, m), pick(draw, ['rows', 'cols', 'both'])]
    return draw(leaf(mc, n, m))


@st.composite
def mat_case(draw):
    ws = draw(world_js(nmax=2, kinds=('L', 'S', 'F'), maxD=6, maxdim=3))
    mc = MCtx(ws, scal=chance(draw, 1, 4))
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    d = pick(draw, [1, 2, 2, 3])
    return {'w': ws, 'e': fixkinds(draw(mat(mc, n, m, d))), 'scal': mc.scal, 'blk': draw(st.lists(st.integers(1, 2), min_size=1, max_size=3)),
            'idx': [draw(st.integers(-3, 2)), draw(st.integers(-3, 2))], 'f': fixkinds(draw(mat(mc, n, m, 1))) if chance(draw, 1, 3) else None,
            'perm': draw(st.permutations([0, 1, 2]))}


# ------------------------------------------------------------------ interpretation
def mdeg(s):
    if not isinstance(s, list) or not s:
        return 0
    t = s[0]
    if t == 'mat':
        return max(mdeg_entry(x) for r in s[1] for x in r)
    if t in ('vec', 'diag'):
        return max(mdeg_entry(x) for x in s[1])
    if t in ('id', 'zeros', 'perm', 'num'):
        return 0
    if t == 'mul':
        return mdeg(s[1]) + mdeg(s[2])
    if t in ('lmul', 'rmul'):
        return mdeg_entry(s[1]) + mdeg(s[2])
    if t in ('addx', 'raddx', 'rsubx', 'subx'):
        return max(mdeg_entry(s[1]), mdeg(s[2]))
    if t in ('hs', 'vs'):
        return max(mdeg(x) for x in s[1])
    if t == 'ewargs':
        return 2 * mdeg(s[1])
    return max([mdeg(x) for x in s[1:] if isinstance(x, list)] or [0])


def mdeg_entry(x):
    return 0 if x[0] == 'sc' else degree(x)


def shape_of(s):
    t = s[0]
    if t == 'mat':
        return len(s[1]), len(s[1][0])
    if t == 'vec':
        return len(s[1]), 1
    raise ValueError(s)


class MProg:
    def __init__(self, w):
        self.w = w
        self.p = Prog(w)
        self.D = w.dim(w.all)

    # reference values: arrays (n, m, D, D)
    def rx(self, x):
        if x[0] == 'sc':
            return self.p.ref_scalar(x[1]) * np.eye(self.D, dtype=complex)
        return self.p.ref_op(x)

    def bx(self, x):
        return self.p.build_scalar(x[1]) if x[0] == 'sc' else self.p.build_op(x)

    def ref(self, s):
        t = s[0]
        I = np.eye(self.D, dtype=complex)
        num = lambda a: np.asarray(a, dtype=complex)[:, :, None, None] * I
        if t == 'mat':
            return np.array([[self.rx(x) for x in r] for r in s[1]])
        if t == 'vec':
            return np.array([[self.rx(x)] for x in s[1]])
        if t == 'id':
            return num(np.eye(s[1]))
        if t == 'zeros':
            return num(np.zeros((s[1], s[2])))
        if t == 'perm':
            n = len(s[1])
            a = np.zeros((n, n))
            for i, j in enumerate(s[1]):
                a[j, i] = 1
            return num(a)
        if t == 'num':
            return num(np.array([[complex(*x) for x in r] for r in s[2]]))
        if t == 'diag':
            n = len(s[1]) + abs(s[2])
            a = num(np.zeros((n, n)))
            for i, x in enumerate(s[1]):
                a[i + max(0, -s[2]), i + max(0, s[2])] = self.rx(x)
            return a
        if t in ('add', 'sub'):
            a, b = self.ref(s[1]), self.ref(s[2])
            return a + b if t == 'add' else a - b
        if t == 'mul':
            return np.einsum('ikab,kjbc->ijac', self.ref(s[1]), self.ref(s[2]))
        if t == 'lmul':
            return np.einsum('ab,ijbc->ijac', self.rx(s[1]), self.ref(s[2]))
        if t == 'rmul':
            return np.einsum('ijab,bc->ijac', self.ref(s[2]), self.rx(s[1]))
        if t in ('addx', 'raddx'):
            return self.ref(s[2]) + self.rx(s[1])
        if t == 'subx':
            return self.ref(s[2]) - self.rx(s[1])
        if t == 'rsubx':
            return self.rx(s[1]) - self.ref(s[2])
        if t == 'div':
            v = self.p.ref_scalar(s[2])
            if abs(v) < 1e-6:
                raise Discard('division by zero')
            return self.ref(s[1]) / v
        if t == 'neg':
            return -self.ref(s[1])
        if t in ('dT', 'TT', 'expand', 'simp'):
            return self.ref(s[1])
        if t in ('T', 'Tp'):
            return self.ref(s[1]).transpose(1, 0, 2, 3)
        if t in ('adj', 'dag', 'H'):
            # element-wise and transposed twice: (A^T)^dagger = element-wise adjoint
            return self.ref(s[1]).transpose(0, 1, 3, 2).conj()
        if t == 'adjT':
            return self.ref(s[1]).transpose(1, 0, 3, 2).conj()
        if t == 'ew':
            a = self.ref(s[1])
            return 2 * a + I
        if t == 'ewargs':
            a = self.ref(s[1])
            return np.einsum('ijab,ijbc->ijac', a, a) - 3 * a
        if t == 'conj':
            return self.ref(s[1]).conj()
        if t == 'slice':
            return self.ref(s[1])[s[2]:s[3], s[4]:s[5]]
        if t == 'hs':
            return np.concatenate([self.ref(x) for x in s[1]], axis=1)
        if t == 'vs':
            return np.concatenate([self.ref(x) for x in s[1]], axis=0)
        if t == 'bm':
            a, b, c, d = [self.ref(x) for x in s[1:]]
            return np.concatenate([np.concatenate([a, b], 1), np.concatenate([c, d], 1)], 0)
        if t == 'rev':
            a = self.ref(s[1])
            return a[::-1] if s[2] == 'rows' else a[:, ::-1] if s[2] == 'cols' else a[::-1, ::-1]
        raise ValueError(s)

    def build(self, s):
        r = self.build0(s)
        ensure(isinstance(r, Matrix), '%s did not give a matrix but %r', s[0], r)
        return r

    def build0(self, s):
        t = s[0]
        B = self.build
        if t == 'mat':
            rows = [[self.bx(x) for x in r] for r in s[1]]
            n, m = len(rows), len(rows[0])
            if s[2] == 'tuple':
                return Matrix(tuple(tuple(r) for r in rows))
            if s[2] == 'list':
                return Matrix(rows)
            a = np.empty((n, m), dtype=object)
            for i in range(n):
                for j in range(m):
                    a[i, j] = rows[i][j]
            return Matrix(a) if s[2] == 'arr' else Matrix(Matrix(a))
        if t == 'vec':
            return Matrix([self.bx(x) for x in s[1]])
        if t == 'id':
            return identity_matrix(s[1])
        if t == 'zeros':
            return zerosm((s[1], s[2]), dtype={'float': float, 'int': int, 'object': object, 'complex': complex}[s[3]])
        if t == 'perm':
            return permutation_matrix(tuple(s[1]))
        if t == 'num':
            conv = {'int': lambda x: int(x[0]), 'float': lambda x: float(x[0]), 'complex': lambda x: complex(*x)}[s[1]]
            return Matrix(np.array([[conv(x) for x in r] for r in s[2]], dtype={'int': int, 'float': float, 'complex': complex}[s[1]]))
        if t == 'diag':
            xs = [self.bx(x) for x in s[1]]
            a = np.empty(len(xs), dtype=object)
            for i, x in enumerate(xs):
                a[i] = x
            return diagm(a, s[2])
        if t == 'add':
            return B(s[1]) + B(s[2])
        if t == 'sub':
            return B(s[1]) - B(s[2])
        if t == 'mul':
            return B(s[1]) * B(s[2])
        if t == 'lmul':
            return self.bx(s[1]) * B(s[2])
        if t == 'rmul':
            return B(s[2]) * self.bx(s[1])
        if t == 'addx':
            return B(s[2]) + self.bx(s[1])
        if t == 'raddx':
            return self.bx(s[1]) + B(s[2])
        if t == 'subx':
            return B(s[2]) - self.bx(s[1])
        if t == 'rsubx':
            return self.bx(s[1]) - B(s[2])
        if t == 'div':
            return B(s[1]) / self.p.build_scalar(s[2])
        if t == 'neg':
            return -B(s[1])
        if t == 'dT':
            return B(s[1]).T.T
        if t == 'TT':
            return B(s[1]).transpose().transpose()
        if t == 'expand':
            return B(s[1]).expand()
        if t == 'simp':
            return B(s[1]).simplify_scalar(func=sympy.expand)
        if t == 'T':
            return B(s[1]).T
        if t == 'Tp':
            return B(s[1]).transpose()
        if t == 'adj':
            return B(s[1]).adjoint().T
        if t == 'dag':
            return B(s[1]).T.dag()
        if t == 'H':
            return B(s[1]).element_wise(adjoint)
        if t == 'adjT':
            return B(s[1]).adjoint()
        if t == 'ew':
            return B(s[1]).element_wise(lambda x: 2 * x + 1)
        if t == 'ewargs':
            def f(x, n, sub=None):
                return x * x - n * sub * x
            return B(s[1]).element_wise(f, 1, sub=3)
        if t == 'conj':
            return B(s[1]).conjugate()
        if t == 'slice':
            a = B(s[1])
            i0, i1, j0, j1 = s[2:6]
            n, m = a.shape
            if s[6] == 'neg':
                i0, j0 = i0 - n, j0 - m
                i1 = i1 - n if i1 < n else None
                j1 = j1 - m if j1 < m else None
            elif s[6] == 'open':
                i0, j0 = i0 or None, j0 or None
                i1 = None if i1 == n else i1
                j1 = None if j1 == m else j1
            return a[i0:i1, j0:j1]
        if t == 'hs':
            return hstackm([B(x) for x in s[1]])
        if t == 'vs':
            return vstackm(tuple(B(x) for x in s[1]))
        if t == 'bm':
            return block_matrix(*[B(x) for x in s[1:]])
        if t == 'rev':
            a = B(s[1])
            return a[::-1] if s[2] == 'rows' else a[:, ::-1] if s[2] == 'cols' else a[::-1, ::-1]
        raise ValueError(s)


def low(a, w):
    return np.array([[low_block(x, w) for x in r] for r in a])


def val(m, w):
    return np.array([[sem.op_or_scalar_matrix(x, w) for x in r] for r in m.matrix])


def setup(case):
    deg = max(mdeg(case['e']), mdeg(case['f']) if case.get('f') else 0)
    if deg > 8:
        raise Discard('degree too high')
    w = World(case['w'], base=3, extra=deg + 1)
    if w.dim(w.all) > 60:
        raise Discard('too large')
    return w


@PROP.part('alg', mat_case, quick=5000,
           rule='a matrix program of size >= 2 whose entries do not all vanish: value of the result against arrays of the denoted operators')
def alg(case):
    w = setup(case)
    p = MProg(w)
    ref = p.ref(case['e'])
    m = p.build(case['e'])
    ensure(m.shape == ref.shape[:2], 'shape %s instead of %s', m.shape, ref.shape[:2])
    lr = low(ref, w)
    ensure(close(low(val(m, w), w), lr), 'wrong value of %s', m)
    n, k = m.shape
    # entries, rows, columns
    i, j = case['idx']
    if -n <= i < n and -k <= j < k:
        x = m[i, j]
        ensure(not isinstance(x, (Matrix, np.ndarray)), 'entry %s', x)
        ensure(close(low_block(sem.op_or_scalar_matrix(x, w), w), lr[i, j]), 'entry %s,%s is %s', i, j, x)
    if -n <= i < n:
        r = m[i]
        ensure(isinstance(r, Matrix) and r.matrix.size == k, 'row %s is %s', i, r)
        ensure(close(low(val(r, w), w).reshape(lr[i].shape), lr[i]), 'row %s is %s', i, r)
    # trace
    if n == k:
        t = m.trace()
        ensure(close(low_block(sem.op_or_scalar_matrix(t, w), w), sum(lr[a, a] for a in range(n))), 'trace %s', t)
    else:
        try:
            m.trace()
            ensure(False, 'trace of a non-square matrix')
        except NonSquareMatrix:
            pass
    # zero
    if m.is_zero:
        ensure(close(lr, 0 * lr), 'is_zero but nonzero: %s', m)
    if all(isinstance(x, (int, float, complex, np.number)) for x in m.matrix.ravel()):
        ensure(m.is_zero == bool((np.array(m.matrix, dtype=complex) == 0).all()), 'is_zero %s of %s', m.is_zero, m)
    # the Hilbert space holds everything
    labs = w.labels_of(m.space)
    for x in m.matrix.ravel():
        if isinstance(x, Operator):
            ensure(set(w.labels_of(x.space)) <= set(labs), 'space %s of %s', m.space, m)
    # equality and hash
    m2 = Matrix([list(r) for r in m.matrix])
    ensure(m == m2 and not (m != m2) and hash(m) == hash(m2), 'copy is not equal: %s', m)
    ensure(Matrix.create(m.matrix) == m and hash(Matrix.create(m.matrix)) == hash(m), 'create')
    tags = [case['e'][0]]
    f = case.get('f')
    if f:
        rf = low(p.ref(f), w)
        mf = p.build(f)
        if m == mf:
            # (equal SymPy and Python numbers may have different hashes)
            same = all(hash(x) == hash(y) for x, y in zip(m.matrix.ravel(), mf.matrix.ravel()))
            ensure(hash(m) == hash(mf) or not same, 'equal matrices with different hash: %s %s', m, mf)
            ensure(close(rf, lr), 'equal but different in value: %s %s', m, mf)
            tags.append('eq')
        ensure((m == mf) == (mf == m) == (not (m != mf)), 'equality is not symmetric: %s %s', m, mf)
        ensure(close(low(val(m + mf, w), w), lr + rf) and close(low(val(mf + m, w), w), lr + rf), 'sum of %s and %s', m, mf)
        ensure(close(low(val(m - mf, w), w), lr - rf), 'difference of %s and %s', m, mf)
    if not close(lr, np.zeros_like(lr)):
        tags.append('nonzero')
    return {'nt': 'nonzero' in tags and len(str(case['e'])) > 60, 'tags': tags, 'show': shown(m)}


# ------------------------------------------------------------------ conjugate, real and imaginary part
@st.composite
def cplx_case(draw):
    ws = [{'k': 'L', 'l': 'q', 'd': 2}]
    ws = draw(world_js(nmax=1, kinds=('L', 'S'), maxD=3, maxdim=3))
    mc = MCtx(ws, scal=not chance(draw, 1, 6))
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {'w': ws, 'e': fixkinds(draw(mat(mc, n, m, pick(draw, [0, 0, 1, 2]))))}


@PROP.part('cplx', cplx_case, quick=2000, rule='a scalar matrix that is not real: conjugate, real and imaginary parts')
def cplx(case):
    w = setup(case)
    p = MProg(w)
    ref = p.ref(case['e'])
    m = p.build(case['e'])
    has_op = any(isinstance(x, Operator) for x in m.matrix.ravel())
    if has_op:
        for f in (lambda: m.conjugate(), lambda: m.real, lambda: m.imag):
            try:
                r = f()
            except NoConjugateMatrix:
                continue
            ensure(False, 'conjugate or part of a matrix of operators gave %s', r)
        return {'nt': True, 'tags': ['op'], 'show': shown(m)}
    D = ref.shape[2]
    for name, f, g in (('conjugate', lambda: m.conjugate(), np.conj), ('real', lambda: m.real, np.real), ('imag', lambda: m.imag, np.imag)):
        r = f()
        ensure(isinstance(r, Matrix) and r.shape == m.shape, '%s of %s: %s', name, m, r)
        v = np.array([[complex(np.asarray(sem.op_or_scalar_matrix(x, w))[0, 0]) for x in row] for row in r.matrix])
        ensure(close(v, g(ref[:, :, 0, 0])), '%s of %s: %s', name, m, r)
    re, im = m.real, m.imag
    z = re + im * sympy.I
    ensure(close(val(z, w), ref), 'real + I imag: %s', z)
    return {'nt': not close(ref, ref.conj()), 'tags': ['real' if close(ref, ref.conj()) else 'complex'], 'show': shown(m)}


# ------------------------------------------------------------------ block structure
@st.composite
def block_case(draw):
    ws = draw(world_js(nmax=1, kinds=('L', 'S'), maxD=3, maxdim=3))
    mc = MCtx(ws)
    sizes = draw(st.lists(st.integers(1, 2), min_size=1, max_size=3))
    blocks = []
    for s in sizes:
        b = [[draw(entry(mc)) for _ in range(s)] for _ in range(s)]
        blocks.append(b)
    return {'w': ws, 'sizes': sizes, 'blocks': fixkinds(blocks), 'want': draw(st.lists(st.integers(1, 3), min_size=1, max_size=4)),
            'zero': pick(draw, ['int', 'float', 'sym', 'op']), 'wide': draw(st.integers(0, 2))}


def is0(x):
    return bool(x == 0)


@PROP.part('blocks', block_case, quick=1200, rule='two or more blocks: block structure is the finest one, and the blocks assemble to the matrix')
def blocks(case):
    from qnet.algebra.core.operator_algebra import ZeroOperator
    w = World(case['w'], base=3, extra=3)
    p = MProg(w)
    for b in case['blocks']:
        for r in b:
            for x in r:
                p.rx(x)
    bs = [[[p.bx(x) for x in r] for r in b] for b in case['blocks']]
    n = sum(case['sizes'])
    z = {'int': 0, 'float': 0.0, 'sym': sympy.Integer(0), 'op': ZeroOperator}[case['zero']]
    a = np.empty((n, n), dtype=object)
    a[:, :] = z
    o = 0
    for b, s in zip(bs, case['sizes']):
        for i in range(s):
            for j in range(s):
                a[o + i, o + j] = b[i][j]
        o += s
    m = Matrix(a)
    # finest structure by brute force
    best = []
    start = 0
    for k in range(1, n + 1):
        if k == n or (all(is0(x) for x in a[start:k, k:].ravel()) and all(is0(x) for x in a[k:, start:k].ravel())):
            best.append(k - start)
            start = k
    bst = m.block_structure
    ensure(tuple(bst) == tuple(best), 'block structure %s instead of %s of %s', bst, best, m)
    got = m._get_blocks(bst)
    ensure(len(got) == len(bst), 'number of blocks %s', got)
    o = 0
    for g, s in zip(got, bst):
        ensure(isinstance(g, Matrix) and g == m[o:o + s, o:o + s], 'block %s', g)
        o += s
    # any requested structure: accepted exactly when it is a coarsening
    want = case['want']
    cuts = set(np.cumsum(bst))
    ok = sum(want) == n and all(c in cuts for c in np.cumsum(want))
    try:
        got = m._get_blocks(tuple(want))
        ensure(ok, 'structure %s accepted for %s', want, m)
        o = 0
        for g, s in zip(got, want):
            ensure(g == m[o:o + s, o:o + s], 'block %s', g)
            o += s
    except ValueError:
        ensure(not ok, 'structure %s refused for %s', want, m)
    # a column splits anywhere
    col = m[:, :1]
    if n > 1 and sum(want) == n:
        got = col._get_blocks(tuple(want))
        ensure(len(got) == len(want), 'column blocks %s', got)
        o = 0
        for g, s in zip(got, want):
            ensure(g == m[o:o + s, :1], 'column block %s instead of %s', g, m[o:o + s, :1])
            o += s
    elif n > 1:
        try:
            col._get_blocks(tuple(want))
            ensure(False, 'column blocks %s of %s', want, col)
        except ValueError:
            pass
    if case['wide'] and n > 1:
        try:
            m[:1].block_structure if False else Matrix(a[:1, :]).block_structure
            ensure(False, 'block structure of a non-square matrix')
        except AttributeError:
            pass
    return {'nt': len(bst) > 1, 'tags': ['n%d' % len(bst), 'ok' if ok else 'refused'], 'show': shown(m)}


# ------------------------------------------------------------------ shapes
@st.composite
def shape_case(draw):
    ws = [{'k': 'L', 'l': 'q', 'd': 2}]
    ws = draw(world_js(nmax=1, kinds=('L', ), maxD=2, maxdim=2))
    mc = MCtx(ws)
    sh = [[draw(st.integers(1, 3)), draw(st.integers(1, 3))] for _ in range(4)]
    return {'w': ws, 'sh': sh, 'm': fixkinds([draw(mat(mc, a, b, 0)) for a, b in sh])}


@PROP.part('shapes', shape_case, quick=500, rule='operand shapes that do not fit: refused; those that fit are accepted')
def shapes(case):
    w = World(case['w'], base=3, extra=3)
    p = MProg(w)
    for s in case['m']:
        p.ref(s)      # discards divisions by zero
    M = [p.build(s) for s in case['m']]
    A, B, C, D = M
    a, b, c, d = [m.shape for m in M]
    bad = []

    def tryit(name, f, ok, shape):
        try:
            r = f()
        except (ValueError, NonSquareMatrix):
            ensure(not ok, '%s refused for shapes %s', name, case['sh'])
            bad.append(name)
            return
        ensure(ok, '%s accepted for shapes %s: %s', name, case['sh'], r)
        if shape:
            ensure(r.shape == shape, '%s has shape %s', name, r.shape)
    tryit('sum', lambda: A + B, a == b, a)
    tryit('difference', lambda: A - B, a == b, a)
    tryit('product', lambda: A * B, a[1] == b[0], (a[0], b[1]))
    tryit('hstack', lambda: hstackm((A, B)), a[0] == b[0], (a[0], a[1] + b[1]))
    tryit('vstack', lambda: vstackm((A, B)), a[1] == b[1], (a[0] + b[0], a[1]))
    tryit('block matrix', lambda: block_matrix(A, B, C, D), a[0] == b[0] and c[0] == d[0] and a[1] + b[1] == c[1] + d[1], None)
    tryit('three dimensions', lambda: Matrix(np.zeros((a[0], a[1], 2))), False, None)
    tryit('trace', lambda: A.trace(), a[0] == a[1], None)
    ensure((A == B) is False or a == b, 'equal with different shapes')
    if a != b:
        ensure(A != B and not (A == B), 'equal with different shapes: %s %s', A, B)
    z = zerosm(a)
    ensure(z.shape == a and z.is_zero, 'zeros')
    return {'nt': bool(bad), 'tags': bad}
