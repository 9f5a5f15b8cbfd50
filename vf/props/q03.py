"""Q03 scalar arithmetic against complex arithmetic"""
import cmath
import operator as pyop

import numpy as np
import sympy
from hypothesis import strategies as st

from .. import env  # noqa
from ..core import Discard, Property, ensure, fail, shown
from ..gens import chance, pick
from ..prog import fold, sym_of
from ..sem import World, close, scalar as sem_scalar
from .. import sem

from qnet.algebra.core.scalar_algebra import (
    KroneckerDelta, One, Scalar, ScalarIndexedSum, ScalarPlus, ScalarPower, ScalarTimes, ScalarValue, Zero, sqrt as qsqrt)
from qnet.algebra.core.state_algebra import KetSymbol, BasisKet
from qnet.algebra.core.hilbert_space_algebra import LocalSpace
from qnet.utils.indices import IdxSym, IndexOverRange

PROP = Property('Q03', '')

W = World([{'k': 'L', 'l': 'q', 'd': 3}])
HS = W.spaces[0].hs
INTS = [0, 1, 2, 3, -1, -2, 5]
FLOATS = [0.5, 1.5, -0.25, 2.0, 0.0, 1.0, -3.5]
COMPLEX = [[0, 1], [1, 1], [0.5, -2], [2, 0], [0, 0], [1, 0], [-1, 0]]
RATS = [[1, 2], [-1, 3], [3, 2], [2, 1], [0, 1], [5, 4]]

# leaves: ["int",n,f] ["flt",v,f] ["cpx",re,im,f] ["rat",p,q,f] ["sym",name,kind,f] ["one"] ["zero"] ["bk",a,b] ["sum", n] ["kd", i, j]
# f: p python, n numpy, s sympy; capital letters: the same wrapped with ScalarValue.create
# ["sx", text, f]: a compound sympy expression


def py_num(x):
    """the raw python/numpy/sympy number of a leaf"""
    t, f = x[0], x[-1].lower() if isinstance(x[-1], str) else 'p'
    if t == 'int':
        return {'p': int, 'n': np.int64, 's': sympy.Integer}[f](x[1])
    if t == 'flt':
        return {'p': float, 'n': np.float64, 's': sympy.Float}[f](x[1])
    if t == 'cpx':
        if f == 's':
            return sympy.sympify(x[1]) + sympy.I * sympy.sympify(x[2])
        return {'p': complex, 'n': np.complex128}[f](complex(x[1], x[2]))
    if t == 'rat':
        return sympy.Rational(x[1], x[2])
    if t == 'sym':
        return sym_of(x[1], x[2])
    if t == 'sx':
        return SX[x[1]][0]
    raise ValueError(x)


X, Y, Z = sym_of('x', 'c'), sym_of('y', 'r'), sym_of('z', 'p')
SX = {
    'x+1': (X + 1, lambda v: v('x') + 1),
    'xy': (X * Y, lambda v: v('x') * v('y')),
    '2*x': (2 * X, lambda v: 2 * v('x')),
    'exp': (sympy.exp(sympy.I * Y), lambda v: cmath.exp(1j * v('y'))),
    'sqrtz': (sympy.sqrt(Z), lambda v: cmath.sqrt(v('z'))),
    'x**2-y': (X**2 - Y, lambda v: v('x')**2 - v('y')),
    '1/z': (1 / Z, lambda v: 1 / v('z')),
    'sqrt2': (sympy.sqrt(2), lambda v: 2**0.5),
    'pi': (sympy.pi, lambda v: np.pi),
    '(x+y)**2': ((X + Y)**2, lambda v: (v('x') + v('y'))**2),
    'I*z': (sympy.I * Z, lambda v: 1j * v('z')),
}


@st.composite
def leaf(draw, raw=False):
    wrap = not raw
    c = draw(st.integers(0, 11 if wrap else 6))
    up = (lambda f: f.upper()) if wrap and chance(draw, 2, 3) else (lambda f: f)
    if c == 0 or c == 1:
        return ['int', pick(draw, INTS), up(pick(draw, ['p', 's', 'n']))]
    if c == 2:
        return ['flt', pick(draw, FLOATS), up(pick(draw, ['p', 's', 'n']))]
    if c == 3:
        return ['cpx'] + pick(draw, COMPLEX) + [up(pick(draw, ['p', 's', 'n']))]
    if c == 4:
        return ['rat'] + pick(draw, RATS) + [up('s')]
    if c == 5:
        n, k = pick(draw, [('x', 'c'), ('y', 'r'), ('z', 'p')])
        return ['sym', n, k, up('s')]
    if c == 6:
        return ['sx', pick(draw, sorted(SX)), up('s')]
    if c == 7:
        return [pick(draw, ['one', 'zero'])]
    if c == 8 or c == 9:
        return ['bk', pick(draw, ['Psi', 'Phi']), pick(draw, ['Psi', 'Phi', 'Xi'])]
    if c == 10:
        return ['sum', draw(st.integers(0, 3)), draw(st.integers(1, 3)), draw(st.integers(0, 2))]
    return ['bk', 'Psi', 'Phi']


BIN = ['+', '-', '*', '/', '+', '*', '-']


@st.composite
def expr(draw, depth):
    if depth <= 0 or chance(draw, 1, 7):
        return draw(leaf())
    t = pick(draw, BIN + ['**', '**', 'neg', 'conj', 'sqrt', 'plus', 'times', 'pos', 'pow', 'real', 'imag', 'sum'])
    sub = expr(depth - 1)
    if t in BIN:
        if chance(draw, 1, 3):
            a, b = draw(sub), draw(leaf(raw=True))
            return [t, a, b] if chance(draw, 1, 2) else [t, b, a]
        return [t, draw(sub), draw(sub)]
    if t == '**' or t == 'pow':
        c = draw(st.integers(0, 9))
        if c <= 5:
            e = ['int', draw(st.integers(-2, 4)), pick(draw, ['p', 's', 'n', 'P', 'S'])]
        elif c <= 7:
            e = ['rat', pick(draw, [1, -1, 3]), 2, pick(draw, ['s', 'S'])]
        elif c == 8:
            e = draw(leaf())
        else:
            e = [pick(draw, ['one', 'zero'])]
        return [t, draw(sub), e]
    if t in ('plus', 'times'):
        return [t, draw(st.lists(sub, min_size=1, max_size=3))]
    if t == 'sum':
        # sum over i of sub * i**p
        return ['isum', draw(expr(min(depth - 1, 1))), draw(st.integers(1, 3)), draw(st.integers(0, 2))]
    return [t, draw(sub)]


def ref(x):
    t = x[0]
    if t == 'int':
        return complex(x[1])
    if t == 'flt':
        return complex(x[1])
    if t == 'cpx':
        return complex(x[1], x[2])
    if t == 'rat':
        return complex(x[1] / x[2])
    if t == 'sym':
        return W.symval(sym_of(x[1], x[2]))
    if t == 'sx':
        return complex(SX[x[1]][1](lambda n: W.symval({'x': X, 'y': Y, 'z': Z}[n])))
    if t == 'one':
        return 1 + 0j
    if t == 'zero':
        return 0j
    if t == 'bk':
        return complex(np.vdot(W.ket_symbol(x[1], [], ('q', )), W.ket_symbol(x[2], [], ('q', ))))
    if t == 'sum':
        return complex(sum(bk_level(i, 'Psi') * i**x[3] for i in range(x[1] % 2, x[2])))
    if t == 'isum':
        v = ref(x[1])
        return sum((v * i**x[3] for i in range(0, x[2])), 0j)
    if t in ('+', 'plus'):
        return sum((ref(y) for y in (x[1:] if t == '+' else x[1])), 0j)
    if t == '-':
        return ref(x[1]) - ref(x[2])
    if t in ('*', 'times'):
        return fold(pyop.mul, [ref(y) for y in (x[1:] if t == '*' else x[1])])
    if t == '/':
        d = ref(x[2])
        n = ref(x[1])
        if abs(d) < 1e-6:
            raise Discard('division by zero')
        return n / d
    if t in ('**', 'pow'):
        b, e = ref(x[1]), ref(x[2])
        return cpow(b, e)
    if t == 'neg':
        return -ref(x[1])
    if t == 'pos':
        return ref(x[1])
    if t == 'conj':
        return ref(x[1]).conjugate()
    if t == 'real':
        return complex(ref(x[1]).real)
    if t == 'imag':
        return complex(ref(x[1]).imag)
    if t == 'sqrt':
        return cpow(ref(x[1]), 0.5 + 0j)
    raise ValueError(x)


def cpow(b, e):
    if abs(e - round(e.real)) < 1e-12 and abs(e) < 12:
        n = int(round(e.real))
        if abs(b) < 1e-6 and n < 0:
            raise Discard('division by zero')
        if abs(b) < 1e-9:
            return 1 + 0j if n == 0 else 0j
        return b**n
    if abs(b) < 1e-6:
        raise Discard('non-integer power of zero')
    if abs(b.imag) < 1e-9 * abs(b) and b.real < 0:
        raise Discard('on the branch cut')
    if abs(e) > 12:
        raise Discard('large exponent')
    return cmath.exp(e * cmath.log(b))


def bk_level(i, name):
    return complex(W.ket_symbol(name, [], ('q', ))[i])


def depth(x):
    return 1 + max([0] + [depth(y) for y in x if isinstance(y, list)])


def is_scalar_obj(v):
    return isinstance(v, Scalar)


def build(x):
    t = x[0]
    if t in ('int', 'flt', 'cpx', 'rat', 'sym', 'sx'):
        v = py_num(x)
        return ScalarValue.create(v) if x[-1].isupper() else v
    if t == 'one':
        return One
    if t == 'zero':
        return Zero
    if t == 'bk':
        return KetSymbol(x[1], hs=HS).dag() * KetSymbol(x[2], hs=HS)
    if t == 'sum':
        i = IdxSym('i')
        from qnet.utils.indices import FockIndex
        term = (BasisKet(FockIndex(i), hs=HS).dag() * KetSymbol('Psi', hs=HS)) * ScalarValue.create(i**x[3])
        return ScalarIndexedSum.create(term, IndexOverRange(i, start_from=x[1] % 2, to=x[2] - 1)) if x[2] - 1 >= x[1] % 2 else Zero
    if t == 'isum':
        i = IdxSym('j_%d' % depth(x))    # distinct names: capture of indices is the subject of Q15
        term = as_scalar(build(x[1])) * ScalarValue.create(i**x[3])
        return ScalarIndexedSum.create(term, IndexOverRange(i, start_from=0, to=x[2] - 1))
    if t in ('plus', 'times'):
        cls = {'plus': ScalarPlus, 'times': ScalarTimes}[t]
        return cls.create(*[as_scalar(build(y)) for y in x[1]])
    if t in ('+', '-', '*', '/'):
        a, b = build(x[1]), build(x[2])
        return binop({'+': pyop.add, '-': pyop.sub, '*': pyop.mul, '/': pyop.truediv}[t], a, b)
    if t == '**':
        a, b = build(x[1]), build(x[2])
        if isinstance(b, Scalar) and not isinstance(b, (ScalarValue, type(One), type(Zero))) and not (
                isinstance(a, Scalar) and not isinstance(a, (ScalarValue, type(One), type(Zero)))):
            raise Discard('number to the power of a scalar expression is not supported')
        return binop(pyop.pow, a, b)
    if t == 'pow':
        return ScalarPower.create(as_scalar(build(x[1])), build(x[2]))
    v = as_scalar(build(x[1]))
    if t == 'neg':
        return -v
    if t == 'pos':
        return v
    if t == 'conj':
        return v.conjugate()
    if t == 'real':
        return v.real
    if t == 'imag':
        return v.imag
    if t == 'sqrt':
        return qsqrt(v)
    raise ValueError(x)


def as_scalar(v):
    return v if isinstance(v, Scalar) else ScalarValue.create(v)


def binop(f, a, b):
    """at least one operand is a Scalar; the result has to be one unless NumPy takes the lead"""
    if not is_scalar_obj(a) and not is_scalar_obj(b):
        a = ScalarValue.create(a)
    if isinstance(a, (np.generic, sympy.Basic)) and not is_scalar_obj(a):
        # foreign left operand: the result may be foreign, its value counts
        r = f(a, b)
        if isinstance(r, np.ndarray):
            r = r.item()
        return r if isinstance(r, Scalar) else ScalarValue.create(r)
    r = f(a, b)
    if not isinstance(r, Scalar):
        fail('%s of %r and %r gave %r, not a scalar' % (f.__name__, a, b, r))
    return r


TRANS = ['expand', 'rebuild', 'doit', 'simplify', 'recreate', 'conj', 'real', 'imag']


@st.composite
def arith_case(draw):
    return {'e': draw(expr(pick(draw, [1, 1, 2, 2, 3]))), 't': draw(st.lists(st.sampled_from(TRANS), max_size=3))}


def count(x):
    return 1 + sum(count(y) for y in x[1:] if isinstance(y, list) and y and isinstance(y[0], str)) + \
        sum(count(z) for y in x[1:] if isinstance(y, list) and y and isinstance(y[0], list) for z in y)


@PROP.part('arith', arith_case, quick=6000)
def arith(case):
    try:
        return check_arith(case)
    except AttributeError as exc:
        if 'asscalar' in str(exc):
            raise Discard('SymPy 1.1 cannot convert NumPy 1.26 numbers')
        raise


def check_arith(case):
    v = ref(case['e'])
    if not 1e-5 < abs(v) < 1e5 and v != 0 and abs(v) > 1e-12:
        raise Discard('magnitude')
    try:
        e = build(case['e'])
    except ZeroDivisionError:
        raise Discard('division by zero')
    except ValueError as exc:
        if 'Invalid value' in str(exc):
            raise Discard('infinite')
        if 'Integers to negative integer powers' in str(exc):
            raise Discard('NumPy integer arithmetic')
        raise
    except NotImplementedError:
        if tags(case['e']) & {'sum', 'isum'}:
            raise Discard('addition of indexed sums is documented as not implemented')
        raise
    show = shown(e)
    if not isinstance(e, Scalar):
        # real/imag of a wrapped value is the bare value
        e = ScalarValue.create(e)
    got = sem_scalar(e, W)
    ensure(close(got, v, 1e-6), 'value of %s is %s instead of %s', e, got, v)
    for t in case['t']:
        try:
            e, v = step(e, v, t)
        except NotImplementedError:
            if tags(case['e']) & {'sum', 'isum'}:
                raise Discard('addition of indexed sums is documented as not implemented')
            raise
        got = sem_scalar(e, W)
        ensure(close(got, v, 1e-6), 'after %s, the value of %s is %s instead of %s', t, e, got, v)
    return {'nt': count(case['e']) >= 3, 'tags': sorted(tags(case['e'])), 'show': show}


def step(e, v, t):
    if t == 'conj':
        e, v = e.conjugate(), v.conjugate()
    elif t == 'real':
        e, v = e.real, complex(v.real)
    elif t == 'imag':
        e, v = e.imag, complex(v.imag)
    elif t == 'recreate':
        e = type(e).create(*e.args, **e.kwargs)
    elif t == 'simplify':
        e = e.simplify_scalar()
    else:
        e = getattr(e, t)()
    if not isinstance(e, Scalar):
        ensure(t in ('real', 'imag'), '%s gave %r, not a Scalar', t, e)
        e = ScalarValue.create(e)
    return e, v


def tags(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            acc.add(x[0])
        for y in x:
            tags(y, acc)
    return acc


# ------------------------------------------------------------------ conversions, comparison, normalisation

@st.composite
def num_leaf(draw, real=False):
    c = draw(st.integers(0, 3 if real else 4))
    w = draw(st.integers(0, 1))
    up = (lambda f: f.upper()) if w else (lambda f: f)
    if c == 0:
        return ['int', draw(st.integers(-3, 4)), up(pick(draw, ['p', 's', 'n']))]
    if c == 1:
        return ['flt', pick(draw, FLOATS), up(pick(draw, ['p', 's', 'n']))]
    if c == 2:
        return ['rat'] + pick(draw, RATS) + [up('s')]
    if c == 3:
        return [pick(draw, ['one', 'zero'])]
    return ['cpx'] + pick(draw, COMPLEX) + [up(pick(draw, ['p', 's', 'n']))]


@st.composite
def num_case(draw):
    real = chance(draw, 2, 3)
    return {'a': draw(num_leaf(real)), 'b': draw(num_leaf(real)), 'real': real}


@PROP.part('numbers', num_case, quick=8000,
           rule='pair of numeric scalars in all representations (Python, NumPy, SymPy; bare or wrapped): conversions, comparison, equality, '
                'hash, zero/one normalisation')
def numbers(case):
    try:
        return check_numbers(case)
    except AttributeError as exc:
        if 'asscalar' in str(exc):
            raise Discard('SymPy 1.1 cannot convert NumPy 1.26 numbers')
        raise


def check_numbers(case):
    va, vb = ref(case['a']), ref(case['b'])
    a, b = as_scalar(build(case['a'])), build(case['b'])
    sb = as_scalar(b)
    ensure((a is Zero) == (va == 0), 'zero is not normalised: %r', a)
    ensure((a is One) == (va == 1), 'one is not normalised: %r', a)
    ensure(isinstance(complex(a), complex), 'complex() of a scalar')
    ensure(a.is_zero == (va == 0), 'is_zero of %r', a)
    if va.imag == 0 and case['a'][0] != 'cpx':
        ensure(abs(float(a) - va.real) < 1e-12, 'float(%r) is %s', a, float(a))
        ensure(int(a) == int(va.real), 'int(%r) is %s', a, int(a))
    if va.imag and vb.imag and (case['a'][-1] in 'sS') != (case['b'][-1] in 'sS'):
        raise Discard('SymPy does not compare its I with Python complex numbers')
    eq = a == b
    ensure(eq is True or eq is False or isinstance(eq, (bool, np.bool_)), '== gave %r', eq)
    ensure(bool(eq) == (va == vb), '%r == %r is %s', a, b, eq)
    ensure(bool(a != b) == (va != vb), '%r != %r is wrong', a, b)
    ensure(bool(a == sb) == (va == vb) and bool(sb == a) == (va == vb), '%r == %r is wrong', a, sb)
    if not isinstance(b, sympy.Basic):
        ensure(bool(b == a) == (va == vb), '%r == %r is wrong', b, a)
    # (the hashes of equal SymPy floats/rationals and Python numbers differ: SymPy's own affair)
    foreign = [s[-1] in 'sS' and s[0] in ('flt', 'rat', 'cpx') for s in (case['a'], case['b'])]
    if eq and not any(foreign):
        ensure(hash(a) == hash(sb), 'equal scalars %r, %r hash differently', a, sb)
        if not isinstance(b, Scalar):
            ensure(hash(a) == hash(b), '%r equals %r but hashes differently', a, b)
    if case['real'] and case['a'][0] != 'cpx' and case['b'][0] != 'cpx':
        for f in (pyop.lt, pyop.le, pyop.gt, pyop.ge):
            want = f(va.real, vb.real)
            ensure(bool(f(a, b)) == want, '%s(%r, %r) is wrong' % (f.__name__, a, b))
            ensure(bool(f(a, sb)) == want, '%s(%r, %r) is wrong' % (f.__name__, a, sb))
    ensure(close(complex(sem_scalar(as_scalar(abs(a)), W)), abs(va)), 'abs(%r)', a)
    ensure(close(complex(sem_scalar(as_scalar(a.real), W)), va.real), 'real part of %r', a)
    ensure(close(complex(sem_scalar(as_scalar(a.imag), W)), va.imag), 'imaginary part of %r', a)
    ensure(close(complex(sem_scalar(a.conjugate(), W)), va.conjugate()), 'conjugate of %r', a)
    # kept last: complex(One) is a recorded finding and must not hide anything else
    # zero/one of every binary operation
    for f, g in ((pyop.add, va + vb), (pyop.sub, va - vb), (pyop.mul, va * vb)):
        r = f(a, sb)
        ensure(isinstance(r, Scalar), '%s(%r, %r) is not a scalar' % (f.__name__, a, sb))
        ensure((r is Zero) == (sem_scalar(r, W) == 0), 'zero is not normalised in %s(%r, %r) = %r' % (f.__name__, a, sb, r))
        ensure((r is One) == (sem_scalar(r, W) == 1), 'one is not normalised in %s(%r, %r) = %r' % (f.__name__, a, sb, r))
        ensure(close(sem_scalar(r, W), g), '%s(%r, %r) = %r' % (f.__name__, a, sb, r))
    if vb == 0:
        try:
            r = a / sb
        except ZeroDivisionError:
            pass
        else:
            fail('%r / %r gave %r' % (a, sb, r))
    # (floor division and remainder of SymPy 1.1 rationals/floats are SymPy's own affair)
    def native(s):
        return s[0] in ('one', 'zero') or (s[0] in ('int', 'flt') and s[-1] in 'pPnN')
    if case['real'] and vb != 0 and native(case['a']) and native(case['b']):
        for f in (pyop.floordiv, pyop.mod):
            want = f(va.real, vb.real)
            r = f(a, b)
            ensure(isinstance(r, Scalar) and close(sem_scalar(r, W), want), '%s(%r, %r) = %r instead of %r' % (f.__name__, a, b, r, want))
            if not isinstance(b, Scalar) and isinstance(b, (int, float)) and va != 0:
                want = f(vb.real, va.real)
                r = f(b, a)
                ensure(close(sem_scalar(as_scalar(r), W), want), '%s(%r, %r) = %r instead of %r' % (f.__name__, b, a, r, want))
    ensure(close(complex(a), va), 'complex(%s) is %s' % (repr(str(a)), complex(a)))
    return {'nt': case['a'] != case['b'], 'tags': [case['a'][0] + case['b'][0]], 'show': '%r, %r' % (a, b)}


# ------------------------------------------------------------------ Kronecker delta

@st.composite
def kd_case(draw):
    def side():
        c = draw(st.integers(0, 4))
        if c == 0:
            return ['n', draw(st.integers(-1, 3))]
        return ['l', draw(st.sampled_from(['i', 'j', 'k'])), draw(st.integers(-2, 2)), pick(draw, [1, 1, 1, 2, -1]), pick(draw, [1, 1, 2])]
    return {'a': side(), 'b': side(), 's': draw(st.booleans())}


@PROP.part('kronecker', kd_case, quick=1500, rule='Kronecker delta of two affine index expressions, evaluated for every index value')
def kronecker(case):
    def mk(s):
        if s[0] == 'n':
            return s[1]
        return (s[3] * IdxSym(s[1]) + s[2]) / sympy.Integer(s[4])

    def val(s, m):
        if s[0] == 'n':
            return s[1]
        return (s[3] * m[s[1]] + s[2]) / s[4]
    d = KroneckerDelta(mk(case['a']), mk(case['b']), simplify=case['s'])
    ensure(isinstance(d, Scalar), 'KroneckerDelta gave %r', d)
    for i in range(-2, 4):
        for j in range(-2, 4):
            for k in (0, 1):
                m = {'i': i, 'j': j, 'k': k}
                w = W.with_idx({(n, 0): v for n, v in m.items()})
                want = 1 if abs(val(case['a'], m) - val(case['b'], m)) < 1e-12 else 0
                ensure(close(sem_scalar(d, w), want), 'KroneckerDelta %s at %s is %s', d, m, sem_scalar(d, w))
    return {'nt': case['a'] != case['b'], 'show': repr(d)}


KNOWN = {
    'complex-of-one': lambda part, case, exc: part == 'numbers' and ref(case['a']) == 1 and str(exc) == "complex('1') is 1j",
}
