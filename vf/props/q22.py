"""Q22 meaningless constructions are rejected, meaningful ones accepted

A case is a construction call with parameters; an independent predicate says whether the call has a meaning.
"""
from .. import env  # noqa
import numpy as np
import sympy
from hypothesis import strategies as st

from ..core import Property, ensure, fail, shown
from ..gens import chance, pick

from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.circuit_algebra import (
    CPermutation, Circuit, CircuitSymbol, Concatenation, FB, Feedback, SLH, SeriesProduct, circuit_identity, extract_channel,
    map_channels, pad_with_identity)
from qnet.algebra.core.hilbert_space_algebra import LocalSpace, ProductSpace
from qnet.algebra.core.matrix_algebra import Matrix, block_matrix, hstackm, vstackm
from qnet.algebra.core.operator_algebra import (
    IdentityOperator, LocalProjector, LocalSigma, OperatorPlus, OperatorSymbol, OperatorTimes, OperatorTrace)
from qnet.algebra.core.scalar_algebra import KroneckerDelta, Scalar, ScalarValue
from qnet.algebra.core.state_algebra import (
    BasisKet, Bra, BraKet, CoherentStateKet, KetBra, KetPlus, KetSymbol, OperatorTimesKet, ScalarTimesKet, TensorKet, ZeroKet)
from qnet.algebra.core.super_operator_algebra import SPost, SPre, SuperOperatorSymbol, SuperOperatorTimesOperator
from qnet.algebra.library.circuit_components import Beamsplitter
from qnet.algebra.library.fock_operators import Create, Destroy, Displace, Phase, Squeeze
from qnet.algebra.library.spin_algebra import Jminus, Jplus, Jz, SpinBasisKet, SpinSpace
from qnet.algebra.toolbox.circuit_manipulation import connect
from qnet.utils.indices import FockIndex, IdxSym, IndexOverList, IndexOverRange
from qnet.utils.permutations import check_permutation

PROP = Property('Q22', '')
X = sympy.Symbol('x')
BAD = (RecursionError, MemoryError, NameError, UnboundLocalError)


def judge(thunk, ok, what, typ=Expression, more=None):
    """the call must give an instance of `typ` iff `ok`"""
    try:
        r = thunk()
    except BAD as e:
        fail('%s: %s: %s', what, type(e).__name__, str(e)[:200])
    except Exception as e:  # noqa
        ensure(not ok, '%s is meaningful, but rejected: %s: %s', what, type(e).__name__, str(e)[:200])
        ensure(bool(type(e).__name__), 'no')
        return None
    ensure(ok, '%s has no meaning, but gives %s', what, shown(r))
    ensure(isinstance(r, typ), '%s gives %s, not a %s', what, shown(r), typ)
    if more is not None:
        more(r)
    return r


# ------------------------------------------------------------------ states
def space(js):
    return ProductSpace.create(*[LocalSpace(str(i), dimension=2 + i % 2) for i in js])


def mk(js):
    """[kind, spaces, variant]"""
    kind, sp, v = js
    sp = sorted(sp)
    h = space(sp)
    if kind == 'k':
        s = [LocalSpace(str(i), dimension=2 + i % 2) for i in sp]
        if v == 0:
            return KetSymbol('k', hs=h)
        if v == 1:
            r = BasisKet(0, hs=s[0])
            for j in s[1:]:
                r = r * BasisKet(1, hs=j)
            return r
        if v == 2:
            return X * KetSymbol('l', hs=h)
        if v == 3:
            return KetSymbol('l', hs=h) + mk(['k', sp, 1])
        if v == 4:
            return OperatorSymbol('A', hs=s[-1]) * KetSymbol('m', hs=h)
        if v == 5:
            r = KetSymbol('n', hs=s[0])
            for j in s[1:]:
                r = r * (KetSymbol('n', X, hs=j) - 2 * BasisKet(0, hs=j))
            return r
        if v == 6:
            r = CoherentStateKet(X, hs=s[0])
            return r * mk(['k', sp[1:], 0]) if sp[1:] else r
        if v == 7:
            return -mk(['k', sp, 0]) + 3 * mk(['k', sp, 1]) - mk(['k', sp, 5])
    if kind == 'b':
        return mk(['k', sp, v]).bra
    if kind == 'o':
        if v == 0:
            return OperatorSymbol('A', hs=h)
        if v == 1:
            r = 1
            for i in sp:
                r = r * LocalSigma(0, 1, hs=LocalSpace(str(i), dimension=2 + i % 2))
            return r
        if v == 2:
            return X * OperatorSymbol('B', hs=h) + 1
        if v == 3:
            r = 0
            for i in sp:
                r = r + OperatorSymbol('C', hs=LocalSpace(str(i), dimension=2 + i % 2))
            return r
        if v == 4:
            return KetSymbol('k', hs=h) * KetSymbol('l', hs=h).bra
        if v == 5:
            return (OperatorSymbol('A', hs=h) * OperatorSymbol('B', hs=h)).adjoint()
        if v == 6:
            return SuperOperatorSymbol('S', hs=h) * OperatorSymbol('A', hs=h)
        if v == 7:
            return OperatorSymbol('A', X, hs=h).diff(X)
    if kind == 's':
        a = SuperOperatorSymbol('S', hs=h)
        return [a, X * a, a + SPre(OperatorSymbol('A', hs=h)), SPre(OperatorSymbol('A', hs=h)),
                SPost(OperatorSymbol('A', hs=h)) * a, a + 1, a * a, a.adjoint()][v]
    if kind == 'n':
        return [2, -1, X, ScalarValue(X), 2.5, 1j, sympy.Rational(1, 3), ScalarValue.create(3)][v]
    if kind == 'z':
        return ZeroKet
    raise KeyError(kind)


@st.composite
def pair_case(draw):
    spaces = st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)
    a = sorted(draw(spaces))
    m = draw(st.integers(0, 5))
    if m <= 1:
        b = a
    elif m == 2:
        b = [i for i in range(4) if i not in a][:draw(st.integers(1, 3))]
    elif m == 3:
        b = sorted(set(a) | {draw(st.integers(0, 3))})
    elif m == 4:
        b = a[:-1] or a
    else:
        b = sorted(draw(spaces))
    ks = 'kkkkbboosn'
    ka, kb = pick(draw, ks), pick(draw, ks)
    op = pick(draw, ['+', '-', '*', '*', '*', 'create'])
    return {'op': op, 'a': [ka, a, draw(st.integers(0, 7))], 'b': [kb, b, draw(st.integers(0, 7))]}


def meaning(op, a, b):
    """does `a op b` have a meaning?"""
    (ka, sa, va), (kb, sb, vb) = a, b
    sa, sb = set(sa), set(sb)
    p = ka + kb
    if op in '+-':
        if p in ('kk', 'bb'):
            return sa == sb
        return p in ('oo', 'on', 'no', 'ss', 'sn', 'ns', 'nn')
    if p in ('kk', 'bb'):
        return not sa & sb
    if p in ('bk', 'kb'):
        return sa == sb
    if p == 'ok':
        return sa <= sb
    if p == 'bo':
        return sb <= sa
    return 'n' in p or p in ('oo', 'so', 'ss')


@PROP.part('pairs', pair_case, quick=16000, rule='sums and products of kets, bras, operators, super-operators and numbers on related spaces; '
           'nontrivial: neither operand is a number')
def pairs(case):
    op = case['op']
    A, B = case['a'], case['b']
    a, b = mk(A), mk(B)
    ok = None
    if op == 'create':
        p = A[0] + B[0]
        sa, sb = set(A[1]), set(B[1])
        cls, ok = {
            'kk': (pick_cls(A[2] + B[2]), None), 'oo': (OperatorTimes if A[2] % 2 else OperatorPlus, True),
            'ok': (OperatorTimesKet, sa <= sb), 'so': (SuperOperatorTimesOperator, True),
            'nk': (ScalarTimesKet, True), 'ko': (OperatorTimes if A[2] % 2 else OperatorTimesKet, False), 'ob': (OperatorTimesKet, False),
            'kb': (KetBra if A[2] % 2 else BraKet, False), 'bk': (KetBra if A[2] % 2 else BraKet, False),
            'bb': (TensorKet, not sa & sb) if A[2] % 2 else (KetPlus, sa == sb),  # bras are accepted consistently
            'sk': (SuperOperatorTimesOperator, False), 'os': (OperatorPlus if A[2] % 2 else OperatorTimes, False), 'kn': (KetPlus, False),
        }.get(p, (ScalarTimesKet, False))
        if p == 'kk':
            ok = {KetPlus: sa == sb, TensorKet: not sa & sb, BraKet: sa == sb, KetBra: sa == sb}[cls]
        if cls is ScalarTimesKet and A[0] == 'n':
            ok = B[0] in 'kb'
        what = '%s.create(%s, %s)' % (cls.__name__, a, b)
        thunk = lambda: cls.create(a, b)  # noqa
    else:
        ok = meaning(op, A, B)
        what = '(%s) %s (%s)' % (a, op, b)
        thunk = (lambda: a + b) if op == '+' else (lambda: a - b) if op == '-' else (lambda: a * b)
    numbers = A[0] == B[0] == 'n'
    judge(thunk, ok, what, typ=object if numbers else Expression)
    return {'nt': 'n' not in (A[0], B[0]), 'tags': [A[0] + B[0] + op[:1], 'meaningful' if ok else 'meaningless'], 'show': what}


def pick_cls(i):
    return [KetPlus, TensorKet, BraKet, KetBra][i % 4]


# ------------------------------------------------------------------ spaces, labels and arguments
WORDS = ['g', 'e', 'h', '0', '1', '-', '+', 'up']
LABELS = ['A', 'a1', 'Alpha', 'A_1', 'A_i,j', 'A_xy', '', '1A', 'A B', 'A__1', '_A', 'A-1', 'A^1', 'A_', 'é', 'A_1_2', 'A\n']
LABEL_OK = {'A': True, 'a1': True, 'Alpha': True, 'A_1': True, 'A_xy': True, '': False, '1A': False, 'A B': False, '_A': False, 'A-1': False,
            'A^1': False, 'A_': False}


@st.composite
def arg_case(draw):
    t = pick(draw, sorted(ARGS))
    i = st.integers(-3, 6)
    return {'t': t, 'i': [draw(i) for _ in range(4)], 'l': [pick(draw, WORDS) for _ in range(draw(st.integers(0, 4)))],
            'n': pick(draw, LABELS), 'k': draw(st.integers(0, 5))}


ARGS = {}


def arg(f):
    ARGS[f.__name__] = f
    return f


@arg
def local_space(c):
    """dimension and/or basis"""
    d, k = c['i'][0], c['k'] % 3
    b = c['l']
    uniq = len(set(b)) == len(b) and len(b) > 0
    if k == 0:
        return (lambda: LocalSpace('1', dimension=d)), d > 0, 'LocalSpace(1, dimension=%s)' % d, lambda h: h.dimension == d
    if k == 1:
        return (lambda: LocalSpace('1', basis=b)), uniq, 'LocalSpace(1, basis=%s)' % b, lambda h: h.dimension == len(b) and h.basis_labels == tuple(b)
    if c['i'][1] > 0:
        d = len(b)
    return (lambda: LocalSpace('1', basis=b, dimension=d)), uniq and d == len(b), 'LocalSpace(1, basis=%s, dimension=%s)' % (b, d), None


@arg
def space_label(c):
    lab = c['n']
    if lab in ('A__1', 'é', 'A_1_2', 'A\n', 'A_i,j'):
        return None
    ok = dict(LABEL_OK, **{'1A': True, 'A-1': True})[lab]
    return (lambda: LocalSpace(lab, dimension=2)), ok, 'LocalSpace(%r)' % lab, None


@arg
def symbol_label(c):
    lab = c['n']
    if lab not in LABEL_OK:
        return None
    cls = [OperatorSymbol, SuperOperatorSymbol, None][c['k'] % 3]
    f = (lambda: cls(lab, hs=1)) if cls else (lambda: CircuitSymbol(lab, cdim=1))
    return f, LABEL_OK[lab], '%s(%r)' % (cls.__name__ if cls else 'CircuitSymbol', lab), None


@arg
def spin_space(c):
    n, d = c['i'][0], [1, 2, 3, 4, 2, 2][c['k']]
    s = sympy.Rational(n, d)
    as_ = [s, (n, d), '%s/%s' % (n, d)][c['i'][1] % 3]
    ok = s > 0 and (2 * s).is_integer
    return (lambda: SpinSpace('s', spin=as_)), ok, 'SpinSpace(spin=%r)' % (as_,), lambda h: h.dimension == 2 * s + 1 and h.spin == s


@arg
def spin_basis(c):
    n = abs(c['i'][0]) % 4 + 1
    s = sympy.Rational(n, 2)
    b = c['l']
    return (lambda: SpinSpace('s', spin=s, basis=b)), len(b) == n + 1 and len(set(b)) == len(b), 'SpinSpace(spin=%s, basis=%s)' % (s, b), None


@arg
def spin_ket(c):
    n, p, q = abs(c['i'][0]) % 4 + 1, c['i'][1], [1, 2, 3][c['k'] % 3]
    s = sympy.Rational(n, 2)
    h = SpinSpace('s', spin=s)
    m = sympy.Rational(p, q)
    ok = -s <= m <= s and (s - m).is_integer
    if n % 2 and c['k'] < 3:
        return (lambda: SpinBasisKet(p, q, hs=h)), ok and q == 2, 'SpinBasisKet(%s, %s, hs=spin %s)' % (p, q, s), \
            lambda k: k.index == int(s + m)
    if n % 2 == 0 and c['k'] < 3:
        ok = -s <= p <= s
        return (lambda: SpinBasisKet(p, hs=h)), ok, 'SpinBasisKet(%s, hs=spin %s)' % (p, s), lambda k: k.index == int(s + p)
    h = LocalSpace('s', dimension=n + 1)
    return (lambda: SpinBasisKet(0, hs=h)), False, 'SpinBasisKet(0, hs=%s)' % h, None


@arg
def basis_ket(c):
    d, n, k = abs(c['i'][0]) % 5 + 1, c['i'][1], c['k']
    if k == 0:
        h = LocalSpace('f')
        return (lambda: BasisKet(n, hs=h)), n >= 0, 'BasisKet(%s, hs=unbounded)' % n, lambda b: b.index == n
    if k == 1:
        h = LocalSpace('f')
        return (lambda: BasisKet(str(n), hs=h)), False, 'BasisKet(%r, hs=unbounded)' % str(n), None
    if k == 2 and c['l'] and len(set(c['l'])) == len(c['l']):
        h, b = LocalSpace('b', basis=c['l']), pick_word(c)
        return (lambda: BasisKet(b, hs=h)), b in c['l'], 'BasisKet(%r, basis=%s)' % (b, c['l']), lambda r: r.index == c['l'].index(b)
    if k == 3:
        h = ProductSpace.create(LocalSpace('1', dimension=d), LocalSpace('2', dimension=2))
        return (lambda: BasisKet(n, hs=h)), False, 'BasisKet(%s, hs=%s)' % (n, h), None
    if k == 4:
        return (lambda: BasisKet(n + 0.5, hs=LocalSpace('1', dimension=d))), False, 'BasisKet(%s)' % (n + 0.5), None
    h = LocalSpace('1', dimension=d)
    return (lambda: BasisKet(n, hs=h)), 0 <= n < d, 'BasisKet(%s, dimension=%s)' % (n, d), lambda r: r.index == n


def pick_word(c):
    return WORDS[c['i'][2] % len(WORDS)]


@arg
def next_level(c):
    d = abs(c['i'][0]) % 4 + 1
    n = abs(c['i'][1]) % d
    h = LocalSpace('1', dimension=d)
    k = BasisKet(n, hs=h)
    s = c['i'][2]
    if c['k'] % 2:
        return (lambda: k.next(s)), True, '%r.next(%s)' % (k, s), lambda r: (r == BasisKet(n + s, hs=h)) if 0 <= n + s < d else r == ZeroKet
    return (lambda: k.prev(s)), True, '%r.prev(%s)' % (k, s), lambda r: (r == BasisKet(n - s, hs=h)) if 0 <= n - s < d else r == ZeroKet


@arg
def sigma(c):
    d, j, k = abs(c['i'][0]) % 5 + 1, c['i'][1], c['i'][2]
    m = c['k']
    if m == 0:
        h = LocalSpace('f')
        return (lambda: LocalSigma(j, k, hs=h)), j >= 0 and k >= 0, 'LocalSigma(%s, %s, hs=unbounded)' % (j, k), None
    if m == 1 and c['l'] and len(set(c['l'])) == len(c['l']):
        h, b = LocalSpace('b', basis=c['l']), pick_word(c)
        return (lambda: LocalSigma(b, c['l'][0], hs=h)), b in c['l'], 'LocalSigma(%r, %r, basis=%s)' % (b, c['l'][0], c['l']), None
    h = LocalSpace('1', dimension=d)
    if m == 2:
        return (lambda: LocalProjector(j, hs=h)), 0 <= j < d, 'LocalProjector(%s, dimension=%s)' % (j, d), None
    return (lambda: LocalSigma(j, k, hs=h)), 0 <= j < d and 0 <= k < d, 'LocalSigma(%s, %s, dimension=%s)' % (j, k, d), None


@arg
def local_operator(c):
    cls = [Create, Destroy, Phase, Displace, Squeeze, Jz][c['k']]
    m = c['i'][0] % 4
    h = [LocalSpace('1', dimension=3), LocalSpace('f'), ProductSpace.create(LocalSpace('1'), LocalSpace('2')), SpinSpace('s', spin=1)][m]
    if m == 3 and cls is not Jz:
        return None
    ok = m == 3 if cls is Jz else m < 2
    if cls in (Create, Destroy, Jz):
        return (lambda: cls(hs=h)), ok, '%s(hs=%s)' % (cls.__name__, h), None
    a = [2, X, 'x', None][c['i'][1] % 4]
    return (lambda: cls(a, hs=h)), ok and not (a is None or isinstance(a, str)), '%s(%r, hs=%s)' % (cls.__name__, a, h), None


@arg
def spin_ladder(c):
    cls = [Jplus, Jminus, Jz][c['k'] % 3]
    m = c['i'][0] % 3
    h = [LocalSpace('1', dimension=3), SpinSpace('s', spin=sympy.Rational(1, 2)), 'abc'][m]
    return (lambda: cls(hs=h)), m == 1, '%s(hs=%s)' % (cls.__name__, h), None


@arg
def scalar_value(c):
    vals = [(float('nan'), False), (float('inf'), False), (-float('inf'), False), (sympy.oo, False), (-sympy.oo, False), (sympy.zoo, False),
            (sympy.nan, False), (np.float64('nan'), False), (np.float64('inf'), False), (None, False), ('x', False), ([1], False), ({}, False),
            (2, True), (-3, True), (2.5, True), (1j, True), (np.float64(.5), True), (np.int64(3), True), (np.complex128(1j), True), (X, True),
            (sympy.sqrt(2), True), (sympy.pi * X, True), (sympy.I, True), (ScalarValue(X), True), (OperatorSymbol('A', hs=1), False),
            (KetSymbol('k', hs=1), False), (IdentityOperator, False)]
    v, ok = vals[(c['i'][0] + 3 + 10 * c['k'] // 2 + c['i'][1]) % len(vals)]
    m = c['i'][2] % 4
    if m == 1 and not isinstance(v, (type(None), str, list, dict, Expression)):
        return (lambda: v * OperatorSymbol('A', hs=1)) if not isinstance(v, np.generic) else (lambda: OperatorSymbol('A', hs=1) * v), ok, '%r * A' % v, None
    if m == 2 and not isinstance(v, (type(None), str, list, dict, Expression)):
        return (lambda: KetSymbol('k', hs=1) * v), ok, 'k * %r' % v, None
    return (lambda: ScalarValue.create(v)), ok, 'ScalarValue.create(%r)' % (v,), lambda s: isinstance(s, Scalar)


@arg
def order(c):
    n = c['i'][0]
    e = [X**2 * OperatorSymbol('A', X, hs=1), KetSymbol('k', X, hs=1), ScalarValue(sympy.exp(X)), OperatorSymbol('A', hs=1), KetSymbol('k', hs=1).bra,
         SuperOperatorSymbol('S', X, hs=1)][c['k']]
    m = c['i'][1] % 4
    if m == 0:
        return (lambda: e.diff(X, n=n)), n >= 0, '(%s).diff(x, n=%s)' % (e, n), None
    if m == 1:
        return (lambda: Matrix([[i] for i in e.series_expand(X, 1, n)])), n >= 0, '(%s).series_expand(x, 1, %s)' % (e, n), lambda r: r.shape == (n + 1, 1)
    bad = ['x', 2.0, e, None][c['i'][2] % 4]
    if m == 2:
        return (lambda: e.diff(bad)), False, '(%s).diff(%r)' % (e, bad), None
    return None


@arg
def indices(c):
    i, j = IdxSym('i'), IdxSym('j')
    k = c['k']
    a = [i, 'i', 1, j, None, X][c['i'][0] % 6]
    if k == 0:
        return (lambda: IndexOverRange(a, 1, 3)), isinstance(a, IdxSym), 'IndexOverRange(%r, 1, 3)' % a, None, object
    if k == 1:
        return (lambda: IndexOverList(a, (1, 3))), isinstance(a, IdxSym), 'IndexOverList(%r, (1, 3))' % a, None, object
    if k == 2:
        return (lambda: FockIndex(a)), isinstance(a, IdxSym), 'FockIndex(%r)' % a, None, object
    if k == 3:
        b = [1, i, 1.5, 'a', OperatorSymbol('A', hs=1), j][c['i'][1] % 6]
        good = lambda x: isinstance(x, int) or isinstance(x, IdxSym)  # noqa
        if isinstance(a, sympy.Symbol) and not isinstance(a, IdxSym):
            return None
        return (lambda: KroneckerDelta(a, b)), good(a) and good(b), 'KroneckerDelta(%r, %r)' % (a, b), None, object
    return None


@arg
def matrix(c):
    r1, c1, r2, c2 = [abs(i) % 3 + 1 for i in c['i']]
    if c['k'] % 2:  # often compatible
        r2 = c1 if c['i'][0] % 2 else r1
    m = lambda r, k, n: Matrix([[OperatorSymbol('%s%d%d' % (n, i, j), hs=1) for j in range(k)] for i in range(r)])  # noqa
    a, b = m(r1, c1, 'a'), m(r2, c2, 'b')
    w = '%dx%d, %dx%d' % (r1, c1, r2, c2)
    k = c['k']
    if k in (0, 1):
        return (lambda: a * b), c1 == r2, 'matrix product ' + w, lambda m: m.shape == (r1, c2)
    if k == 2:
        return (lambda: a + b), (r1, c1) == (r2, c2), 'matrix sum ' + w, lambda m: m.shape == (r1, c1)
    if k == 3:
        return (lambda: hstackm((a, b))), r1 == r2, 'hstackm ' + w, lambda m: m.shape == (r1, c1 + c2)
    if k == 4:
        return (lambda: vstackm((a, b))), c1 == c2, 'vstackm ' + w, lambda m: m.shape == (r1 + r2, c1)
    return (lambda: block_matrix(a, m(r1, c2, 'c'), m(r2, c1, 'd'), m(c['i'][0] % 3 + 1, c2, 'e'))), c['i'][0] % 3 + 1 == r2, \
        'block_matrix ' + w, lambda m: m.shape == (r1 + r2, c1 + c2)


@arg
def trace(c):
    m = c['k']
    if m == 3:  # numbers and super-operators are converted by multiplying with the identity
        return None
    a = [OperatorSymbol('A', hs=1), KetSymbol('k', hs=1), 2, SuperOperatorSymbol('S', hs=1), KetSymbol('k', hs=1).bra, CircuitSymbol('C', cdim=1)][m]
    return (lambda: OperatorTrace.create(a, over_space=LocalSpace('1', dimension=2))), m in (0, 2), 'OperatorTrace(%s)' % (a,), None


@PROP.part('arguments', arg_case, quick=14000, rule='the call is judged (templates skip some combinations of parameters)')
def arguments(case):
    r = ARGS[case['t']](case)
    if r is None:
        return {'nt': False, 'tags': ['skipped'], 'show': None}
    thunk, ok, what, post = r[:4]

    def more(x):
        if post is not None:
            ensure(post(x) is not False, '%s gives the wrong object %s', what, shown(x))
    ok = bool(ok)
    judge(thunk, ok, what, typ=r[4] if len(r) > 4 else Expression, more=more)
    return {'nt': True, 'tags': [case['t'], 'meaningful' if ok else 'meaningless'], 'show': what}


# ------------------------------------------------------------------ circuits
@st.composite
def circuit_case(draw):
    t = pick(draw, ['series', 'series', 'feedback', 'feedback', 'feedback', 'perm', 'map', 'slh', 'connect', 'connect', 'pad', 'channel', 'blocks', 'component',
                    'mixed', 'symbol'])
    i = st.integers(-2, 5)
    return {'t': t, 'a': draw(cjs(draw(st.integers(1, 4)))), 'b': draw(cjs(draw(st.integers(1, 4)))), 'i': [draw(i) for _ in range(4)],
            'p': draw(st.lists(st.integers(-1, 4), min_size=1, max_size=5)), 'q': draw(st.permutations(range(draw(st.integers(1, 5))))),
            'k': draw(st.integers(0, 5)), 'same': draw(st.booleans())}


@st.composite
def cjs(draw, n, depth=2):
    k = pick(draw, ['sym', 'id', 'perm', 'slh', 'cat', 'series', 'inv', 'fb'] if depth else ['sym', 'id', 'perm', 'slh'])
    if k == 'cat' and n > 1:
        m = draw(st.integers(1, n - 1))
        return ['cat', n, draw(cjs(m, depth - 1)), draw(cjs(n - m, depth - 1))]
    if k == 'series':
        return ['series', n, draw(cjs(n, depth - 1)), draw(cjs(n, depth - 1))]
    if k == 'inv':
        return ['inv', n, draw(cjs(n, 0))]
    if k == 'fb' and n < 4:
        return ['fb', n, draw(cjs(n + 1, 0)), draw(st.integers(0, n)), draw(st.integers(0, n))]
    if k == 'perm':
        return ['perm', n, draw(st.permutations(range(n)))]
    return [k if k in ('id', 'slh') else 'sym', n, pick(draw, 'ABC')]


def mkc(js):
    k, n = js[:2]
    if k == 'cat':
        return mkc(js[2]) + mkc(js[3])
    if k == 'series':
        return mkc(js[2]) << mkc(js[3])
    if k == 'inv':
        return mkc(js[2]).series_inverse()
    if k == 'fb':
        c = js[2]
        if c[0] != 'sym':
            c = ['sym', c[1], 'F']  # identities and SLHs may give ill-posed loops
        return mkc(c).feedback(out_port=js[3], in_port=js[4])
    if k == 'perm':
        return CPermutation.create(tuple(js[2]))
    if k == 'id':
        return circuit_identity(n)
    if k == 'slh':
        # no loop through the S matrix is ill-posed
        S = [[sympy.Rational(1 + (3 * i + 5 * j) % 7, 11) for j in range(n)] for i in range(n)]
        return SLH(S, [OperatorSymbol('L%d' % i, hs=1) for i in range(n)], OperatorSymbol('H', hs=1))
    return CircuitSymbol(js[2], cdim=n)


def block_of(c, i):
    k = 0
    for n, b in enumerate(c.block_structure):
        k += b
        if i < k:
            return n


def hasslh(js):
    return js[0] == 'slh' or any(hasslh(x) for x in js if isinstance(x, list) and x and isinstance(x[0], str))


@PROP.part('circuits', circuit_case, quick=14000, rule='the call is judged; the accepted circuits have the expected number of channels')
def circuits(case):
    t, k = case['t'], case['k']
    i, j, m, n = case['i']
    if case['same'] and t in ('series', 'connect'):
        case = dict(case, b=case['a'])
    na, nb = case['a'][1], case['b'][1]
    typ, want, ok = Circuit, None, None
    a = b = None
    if t in ('series', 'feedback', 'pad', 'blocks', 'connect', 'mixed'):
        a, b = mkc(case['a']), mkc(case['b'])
        ensure(a.cdim == na and b.cdim == nb, '%s and %s have %s and %s channels, expected %s and %s', a, b, a.cdim, b.cdim, na, nb)
    if t == 'series':
        what = '(%s) << (%s)' % (a, b)
        f = (lambda: a << b) if k < 3 else (lambda: SeriesProduct.create(a, b)) if k < 5 else (lambda: SeriesProduct.create(b, a))
        ok, want = na == nb, na
    elif t == 'feedback':
        ok = na > 1 and 0 <= i < na and 0 <= j < na
        if hasslh(case['a']) and (case['a'][0] != 'slh' or na == 1):  # a single SLH channel may be closed
            return {'nt': False, 'tags': ['skipped'], 'show': None}
        if i == j and ok and a.block_structure[block_of(a, i)] == 1:
            return {'nt': False, 'tags': ['closed loop'], 'show': None}
        what = '(%s).feedback(out_port=%s, in_port=%s)' % (a, i, j)
        f = [lambda: a.feedback(out_port=i, in_port=j), lambda: Feedback.create(a, out_port=i, in_port=j), lambda: FB(a, out_port=i, in_port=j)][k % 3]
        want = na - 1
    elif t == 'perm':
        p = case['p'] if k < 3 else list(case['q'])
        ok, want = sorted(p) == list(range(len(p))), len(p)
        what = 'CPermutation.create(%s)' % (tuple(p),)
        f = lambda: CPermutation.create(tuple(p))  # noqa
        ensure(check_permutation(tuple(p)) == ok, 'check_permutation(%s) is wrong', p)
    elif t == 'map':
        pairs = dict(zip(case['p'], case['q'])) if k < 4 else dict(zip(case['q'], case['p']))
        if any(x < 0 for x in list(pairs) + list(pairs.values())):
            return {'nt': False, 'tags': ['skipped'], 'show': None}
        cd = abs(i) + 1
        ok = all(x < cd and y < cd for x, y in pairs.items()) and len(set(pairs.values())) == len(pairs)
        what, want = 'map_channels(%s, %s)' % (pairs, cd), cd
        f = lambda: map_channels(pairs, cd)  # noqa
    elif t == 'slh':
        r, c, l = [abs(x) % 3 + 1 for x in (i, j, m)]
        if k % 2:
            c = r
        if k % 3:
            l = r
        S = Matrix([[sympy.Symbol('s%d%d' % (x, y)) for y in range(c)] for x in range(r)])
        L = [OperatorSymbol('L%d' % x, hs=1) for x in range(l)]
        H = [0, OperatorSymbol('H', hs=1), KetSymbol('k', hs=1), 2][n % 4]
        ok, want = r == c == l and n % 4 != 2, r
        what = 'SLH(%dx%d, %d, %s)' % (r, c, l, H)
        f = lambda: SLH(S, L, H)  # noqa
    elif t == 'connect':
        if hasslh(case['a']) or hasslh(case['b']) or a == b and not case['same']:
            return {'nt': False, 'tags': ['skipped'], 'show': None}
        a, b = CircuitSymbol('A', cdim=na), CircuitSymbol('B', cdim=nb)
        cs = [((0, i), (1, j))]
        if k % 2:
            cs.append(((1, m), (0, n)))
        if k == 5:
            cs.append(((0, m), (1, j)))
        if any(p < 0 for x in cs for _, p in x):
            return {'nt': False, 'tags': ['skipped'], 'show': None}
        outs, ins = [x[0] for x in cs], [x[1] for x in cs]
        ok = all(p < (na, nb)[c] for c, p in outs + ins) and len(set(outs)) == len(outs) and len(set(ins)) == len(ins)
        what, want = 'connect([%r, %r], %s)' % (na, nb, cs), None
        if ok and len(cs) >= na + nb:
            return {'nt': False, 'tags': ['closed'], 'show': what}
        f = lambda: connect([a, b], cs)  # noqa
    elif t == 'pad':
        pos, num = i, abs(j)
        if pos < 0 or pos > na:
            return {'nt': False, 'tags': ['skipped'], 'show': None}
        ok, want = True, na + num
        if pos not in (0, na) and hasslh(case['a']):
            return {'nt': False, 'tags': ['skipped'], 'show': None}
        what = 'pad_with_identity(%s, %s, %s)' % (a, pos, num)
        f = lambda: pad_with_identity(a, pos, num)  # noqa
    elif t == 'channel':
        cd = abs(j) + 1
        if i < 0:
            return {'nt': False, 'tags': ['skipped'], 'show': None}
        ok, want = i < cd, cd
        what = 'extract_channel(%s, %s)' % (i, cd)
        f = lambda: extract_channel(i, cd)  # noqa
    elif t == 'blocks':
        bs, typ = a.block_structure, object
        ensure(sum(bs) == na, 'the block structure of %s is %s', a, bs)
        if k % 2:
            ok = 0 <= i < na
            what = '(%s).index_in_block(%s)' % (a, i)
            f = lambda: a.index_in_block(i)  # noqa
        else:
            p = tuple(x for x in case['p'] if x > 0) if k else bs
            cuts = {sum(bs[:x]) for x in range(len(bs) + 1)}
            mine = {sum(p[:x]) for x in range(len(p) + 1)}
            ok = sum(p) == na and mine <= cuts
            if not p:
                return {'nt': False, 'tags': ['skipped'], 'show': None}
            what = '(%s).get_blocks(%s)' % (a, p)
            f = lambda: a.get_blocks(p)  # noqa
    elif t == 'component':
        kw = [{}, {'mixing_angle': X}, {'theta': X}, {'label': 'B'}, {'label': 'B', 'mixing_angle': 2}, {'label': '1 2'}][k]
        ok, want = k not in (2, 5), 2
        what = 'Beamsplitter(%s)' % kw
        f = lambda: Beamsplitter(**kw)  # noqa
    elif t == 'mixed':
        o = [2, OperatorSymbol('A', hs=1), X, None, KetSymbol('k', hs=1), 'A'][k]
        ok = False
        what = '%s (%s) and %r' % (['sum of', 'series of', 'product of'][i % 3], a, o)
        f = [lambda: a + o, lambda: a << o, lambda: a * o][i % 3]
    else:
        ok, want = i >= 0, i
        what = "CircuitSymbol('A', cdim=%s)" % i
        f = lambda: CircuitSymbol('A', cdim=i)  # noqa
        if i == 0:
            return {'nt': False, 'tags': ['skipped'], 'show': None}

    def more(r):
        if want is not None:
            ensure(r.cdim == want, '%s has %s channels, expected %s', what, r.cdim, want)
    judge(f, ok, what, typ=typ, more=more)
    return {'nt': True, 'tags': [t, 'meaningful' if ok else 'meaningless'], 'show': what}
