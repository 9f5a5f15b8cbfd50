"""Q14 series expansion"""
from .. import env  # noqa
import math

import numpy as np
import sympy
from hypothesis import strategies as st

from .. import anyexpr as A, sem
from ..core import Discard, Property, ensure, shown
from ..gens import chance, pick
from ..prog import sym_of
from .q13 import SYMS, agree, fdval, raw, special_case, special_expr

from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
from qnet.algebra.core.scalar_algebra import ScalarValue

PROP = Property('Q14', '')
TOL = 2e-5


@st.composite
def series_case(draw, kinds='ooookkbpssmi'):
    case = draw(A.any_case(kinds, post=False, depth=(0, 1, 1, 2)))
    if case['kind'] != 'i':
        case['e'] = A.depend(draw, case['e'])
    case['s'] = A.dep_syms(draw, case['e'], SYMS[:2])
    case['n'] = pick(draw, [0, 1, 1, 2, 2, 3]) if case['kind'] != 'p' else pick(draw, [1, 1, 2])
    case['at'] = pick(draw, [['n', 0], ['n', 0], ['n', 1], ['q', 1, 2], ['q', -3, 4], ['sym', 'v'], ['sym', 'z'], ['vs', 1]])
    return case


@PROP.part('taylor', series_case, quick=4000, rule='expressions of every kind, about numbers and symbols, to third order')
def taylor(case):
    w = A.world(case)
    e = A.build(case, w)
    name, kind = case['s']
    sym = sym_of(name, kind)
    at = case['at']
    if at[0] == 'sym':
        about = sympy.Symbol('v0', real=True) if at[1] == 'v' else sym_of('z', 'p')
        if about == sym:
            about = sympy.Symbol('v0', real=True)
        x0 = w.symval(about).real
    elif at[0] == 'vs':
        about, x0 = ScalarValue.create(at[1]), float(at[1])
    else:
        about = sympy.Rational(at[1], at[2]) if at[0] == 'q' else at[1]
        x0 = float(about)
    if kind == 'p' and x0 <= 0.4:
        # the neighbourhood of the point must stay where the symbol is positive
        about, x0 = sympy.Rational(3, 4), 0.75
    n = case['n']
    w0 = w.with_env(**{name: x0})
    refs = []
    for k in range(n + 1):
        try:
            r = fdval(e, w0, [[[name, kind], k]] if k else [])
        except (Discard, ZeroDivisionError, OverflowError):
            raise Discard('singular')
        r = r / math.factorial(k)
        if np.max(np.abs(r), initial=0) > 1e3:
            raise Discard('too large')
        refs.append(r)
    try:
        cs = e.series_expand(sym, about, n)
    except ValueError as exc:
        if 'MAY be singular' in str(exc):
            raise Discard('refused: power of a scalar expression')
        raise
    except NotImplementedError:
        if 'IndexedSum' in ' '.join(A.classes(e)):
            raise Discard('addition of indexed sums is not implemented')
        raise
    ensure(len(cs) == n + 1, 'expansion of %s to order %d has %d coefficients: %s', e, n, len(cs), cs)
    wx = w.with_env(**{name: 17.31})         # no coefficient may depend on the expansion parameter
    for k, (c, r) in enumerate(zip(cs, refs)):
        if case['kind'] != 'm':
            ensure(isinstance(c, Expression), 'coefficient %d of %s: %r', k, e, c)
        ensure(sym not in (c.free_symbols if isinstance(c, Expression) else sympy.sympify(c).free_symbols),
               'coefficient %d of %s in %s about %s depends on %s: %s', k, e, sym, about, sym, c)
        try:
            v = A.value(c, wx)
        except sem.SemError as exc:
            if 'unevaluated sympy' in str(exc):
                raise Discard('left to SymPy')
            raise
        ensure(agree(v, r, TOL * (1 if k < 3 else 30)), 'coefficient %d of %s in %s about %s is %s: %s instead of %s', k, e, sym, about, c,
               np.array2string(raw(v), threshold=12), np.array2string(r, threshold=12))
    nt = sym in e.free_symbols and n > 0
    return {'nt': nt, 'tags': A.classes(e) + ['order %d' % n, at[0]], 'show': shown(e)}


# ------------------------------------------------------------------ polynomials are reproduced exactly
@st.composite
def poly_case(draw):
    return {'kind': pick(draw, ['o', 'k', 's', 'p']), 'c': draw(st.lists(st.lists(st.integers(-3, 3), min_size=1, max_size=4), min_size=1, max_size=3)),
            'at': draw(st.integers(-2, 2)), 'extra': draw(st.integers(0, 2)), 'prod': draw(st.booleans())}


@PROP.part('polynomial', poly_case, quick=1500, rule='sum of coefficients times powers of (x - x0) equals the polynomial expression')
def polynomial(case):
    from qnet.algebra.core.operator_algebra import OperatorSymbol
    from qnet.algebra.core.state_algebra import KetSymbol
    from qnet.algebra.core.super_operator_algebra import SuperOperatorSymbol
    x = sympy.Symbol('y', real=True)
    k = case['kind']

    def atom(i):
        if k == 'o':
            return OperatorSymbol('ABC'[i], hs=i % 2)
        if k == 'p':
            return SuperOperatorSymbol('ABC'[i], hs=i % 2)
        if k == 'k':
            return KetSymbol('ABC'[i], hs=0)
        return ScalarValue.create(sympy.Symbol('abc'[i]))
    terms = []
    deg = 0
    for i, cs in enumerate(case['c']):
        p = sum((c * x ** j for j, c in enumerate(cs)), sympy.Integer(0))
        terms.append(p * atom(i))
        deg = max(deg, len(cs) - 1)
    if case['prod'] and k in 'ops' and len(terms) > 1:
        e = terms[0]
        for t in terms[1:]:
            e = e * t
        deg = sum(len(cs) - 1 for cs in case['c'])
    else:
        e = terms[0]
        for t in terms[1:]:
            e = e + t
    if not isinstance(e, QuantumExpression):
        raise Discard('a number')
    n = deg + case['extra']
    cs = e.series_expand(x, case['at'], n)
    ensure(len(cs) == n + 1, '%d coefficients', len(cs))
    tot = cs[0]
    for j, c in enumerate(cs[1:]):
        tot = tot + (x - case['at']) ** (j + 1) * c
    diff = (tot - e).expand().simplify_scalar() if isinstance(tot - e, QuantumExpression) else tot - e
    ensure(diff == 0 or diff.is_zero, 'expansion of %s about %d sums up to %s; the difference is %s', e, case['at'], tot, diff)
    return {'nt': deg >= 1, 'tags': [k], 'show': shown(e)}


def symbolic_exponent(s):
    if not isinstance(s, list):
        return False
    if s and s[0] == 'pow' and ('y' in s[2] or 'z' in s[2]):
        return True
    return any(symbolic_exponent(x) for x in s)


# ------------------------------------------------------------------ constructs with an expansion rule of their own
@PROP.part('special', special_case, quick=2500, rule='constructs with a product rule of their own: applied super-operators, powers of scalar '
           'expressions, coherent states, displacements, commutators, traces, outer products, pseudo-inverses')
def special(case):
    if symbolic_exponent(case['e']):
        raise Discard('left to SymPy, or refused')
    e, w = special_expr(case)
    if not isinstance(e, QuantumExpression):
        raise Discard('a number')
    name, kind = case['s']
    sym = sym_of(name, kind)
    about = sympy.Rational(case['at'][0])
    if kind == 'p' and about <= 0.4:
        about = sympy.Rational(3, 4)
    n = case['n']
    w0 = w.with_env(**{name: float(about)})
    refs = []
    for k in range(n + 1):
        try:
            r = fdval(e, w0, [[[name, kind], k]] if k else [], 1e-4) / math.factorial(k)
        except (ZeroDivisionError, OverflowError):
            raise Discard('singular')
        if not np.all(np.isfinite(r)) or np.max(np.abs(r), initial=0) > 1e3:
            raise Discard('too large')
        refs.append(r)
    try:
        cs = e.series_expand(sym, about, n)
    except ValueError as exc:
        if 'MAY be singular' in str(exc):
            raise Discard('refused: power of a scalar expression')
        raise
    ensure(len(cs) == n + 1, 'expansion of %s to order %d has %d coefficients: %s', e, n, len(cs), cs)
    wx = w.with_env(**{name: 17.31})
    for k, (c, r) in enumerate(zip(cs, refs)):
        ensure(isinstance(c, QuantumExpression), 'coefficient %d of %s: %r', k, e, c)
        ensure(sym not in c.free_symbols, 'coefficient %d of %s in %s about %s depends on %s: %s', k, e, sym, about, sym, c)
        v = A.value(c, wx)
        ensure(agree(v, r, 1e-4), 'coefficient %d of %s in %s about %s is %s: %s instead of %s', k, e, sym, about, c,
               np.array2string(raw(v), threshold=12), np.array2string(r, threshold=12))
    return {'nt': sym in e.free_symbols and n > 0, 'tags': A.classes(e) + ['order %d' % n], 'show': shown(e)}
