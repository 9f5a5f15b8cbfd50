"""Q13 differentiation"""
from .. import env  # noqa
import numpy as np
import sympy
from hypothesis import strategies as st

from .. import anyexpr as A, sem
from ..core import Discard, Property, ensure, fail, shown
from ..gens import chance, pick
from ..prog import sym_of

from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.abstract_quantum_algebra import QuantumDerivative, QuantumExpression
from qnet.algebra.core.exceptions import BasisNotSetError
from qnet.algebra.core.scalar_algebra import Scalar

PROP = Property('Q13', '')
SYMS = [('y', 'r'), ('z', 'p'), ('y', 'r'), ('z', 'p'), ('x', 'c')]
TOL = 2e-5


def diffable(case):
    # an expression that is not analytic in x (conjugates) has no derivative by x
    s = str(case['e'])
    return not any(k in s for k in ("'conj'", "'adj'", "'pmcc'", "'bra", "'kb'", "'bk", "'bok'", "'kdd'", "'sconj'", "'oadj'", "'kdagdag'",
                                    "'brop'", "'kbk'", "'pinv'", "'nsp'", "'lind'", "'liou'", "'sadj'", "'ksym'", "'ksy'"))


@st.composite
def diff_case(draw, kinds='oookkbpssmi'):
    case = draw(A.any_case(kinds, post=False, depth=(0, 1, 1, 2)))
    if case['kind'] != 'i':
        case['e'] = A.depend(draw, case['e'])
    order = pick(draw, [1, 1, 1, 2, 2, 3]) if case['kind'] != 'p' else pick(draw, [1, 1, 2])
    case['d'] = [[A.dep_syms(draw, case['e'], SYMS), 1] for _ in range(order)]
    if chance(draw, 1, 2):
        # repeated derivatives in one call
        m = []
        for s, n in case['d']:
            if m and m[-1][0] == s:
                m[-1][1] += n
            else:
                m.append([s, n])
        case['d'] = m
    case['es'] = draw(st.booleans())
    case['at'] = pick(draw, [None, None, ['num', -0.45], ['num', 1], ['sym', 'x'], ['sym', 'v']])
    return case


def fdval(e, w, ds, tol=2e-5):
    """numeric mixed derivative of the value of e; discarded when two step sizes disagree"""
    a = fdval1(e, w, ds, 0.04)
    if not ds:
        return a
    b = fdval1(e, w, ds, 0.023)
    total = sum(n for s, n in ds)
    if not sem.close(a, b, tol / 4 * (1 if total < 3 else 30)):
        raise Discard('no reliable numeric derivative')
    return b if total < 3 else a


def fdval1(e, w, ds, h):
    if not ds:
        v = A.value(e, w)
        if not A.finite(v):
            raise Discard('not finite')
        return raw(v)
    (name, kind), n = ds[0]
    sym = sym_of(name, kind)
    x0 = w.symval(sym)
    try:
        return sem.fd(lambda x: fdval1(e, w.with_env(**{name: x}), ds[1:], h), x0, n, h)
    except (ZeroDivisionError, OverflowError):
        raise Discard('singular')


class Lazy(Exception):
    pass


def raw(v):
    k, x = v
    if k in 'kb':
        if x is None:
            return np.zeros(1, complex)
        return x[1]
    return x


def agree(val, ref, tol):
    v = raw(val)
    if v.shape != ref.shape:
        return np.max(np.abs(v), initial=0) < tol and np.max(np.abs(ref), initial=0) < tol
    return sem.close(v, ref, tol)


@PROP.part('value', diff_case, quick=3000, rule='expressions of every kind; first, second and third, repeated and mixed derivatives, '
           'also evaluated at a point')
def value(case):
    if any(s[0] == 'x' for s, n in case['d']) and not diffable(case):
        raise Discard('not analytic in x')
    w = A.world(case)
    e = A.build(case, w)
    if not isinstance(e, QuantumExpression) and case['kind'] != 'm':
        raise Discard('no derivative')
    ref = fdval(e, w, case['d'])
    big = np.max(np.abs(ref), initial=0)
    if big > 1e4:
        raise Discard('too large')
    d = e
    dep = True
    for (s, n) in case['d']:
        sym = sym_of(*s)
        if case['kind'] == 'm':
            d = type(d)([[x.diff(sym, n=n) if isinstance(x, QuantumExpression) else sympy.diff(sympy.sympify(complex(x) if isinstance(x, np.number) else x), sym, n) for x in row] for row in d.matrix])
            continue
        if sym not in d.free_symbols:
            dep = False
            z = d.diff(sym, n=n)
            ensure(z.is_zero, 'derivative of %s by the absent symbol %s is %s', d, sym, z)
        try:
            d = d.diff(sym, n=n, expand_simplify=case['es'])
        except NotImplementedError:
            if 'IndexedSum' in ' '.join(A.classes(d)):
                raise Discard('addition of indexed sums is not implemented')
            raise
        ensure(isinstance(d, Expression), 'derivative %r', d)
    total = sum(n for s, n in case['d'])
    tol = TOL * (1 if total < 3 else 30)
    try:
        val = A.value(d, w)
    except sem.SemError as exc:
        if 'unevaluated sympy' in str(exc):
            raise Discard('left to SymPy')
        raise
    ensure(agree(val, ref, tol), 'derivative of %s by %s is %s: values %s, expected %s', e, case['d'], d, np.array2string(raw(val), threshold=12),
           np.array2string(ref, threshold=12))
    tags = list(A.classes(d)) if dep else ['independent']
    if case['at'] is not None and case['kind'] != 'm' and len({tuple(s) for s, n in case['d']}) >= 1:
        point(case, w, e, d, tol)
    return {'nt': dep and big > 1e-9, 'tags': tags, 'show': shown(e) + ' -> ' + shown(d)}


def point(case, w, e, d, tol):
    """the derivative at a point: substitute or evaluate afterwards"""
    (name, kind), n = case['d'][0]
    sym = sym_of(name, kind)
    k, v = case['at']
    if k == 'num':
        if kind == 'p' and v < 0:
            v = -v
        v = sympy.Rational(str(v))
        num = float(v)
    else:
        if v == name:
            return
        v = sympy.Symbol({'x': 'z', 'v': 'v0'}[v], positive=True)
        if v == sym:
            return
        num = w.symval(v).real
    try:
        ref = fdval(e, w.with_env(**{name: num}), case['d'])
    except Discard:
        return
    if np.max(np.abs(ref), initial=0) > 1e4:
        return
    others = [s for s, m in case['d'] if s[0] == getattr(v, 'name', '')]
    if others:
        return
    forms = [('substitute', d.substitute({sym: v}) if isinstance(d, QuantumExpression) else d)]
    if isinstance(d, QuantumDerivative):
        forms.append(('evaluate_at', d.evaluate_at({sym: v}) if sym in d.syms else d.substitute({sym: v})))
    for how, r in forms:
        if not isinstance(r, Expression):
            continue
        try:
            val = A.value(r, w.with_env(**({} if getattr(v, 'name', None) else {})))
        except sem.SemError as exc:
            if 'unevaluated sympy' in str(exc):
                return
            raise
        # the point may mention a symbol which occurs in e as well: its value counts for both, as in the reference
        ensure(agree(val, ref, tol), '%s of %s at %s = %s: %s', how, d, sym, v, r)


# ------------------------------------------------------------------ derivatives of symbolic derivatives
@st.composite
def chain_case(draw):
    """derivative, evaluated at a point that depends on a symbol, derived again"""
    case = draw(A.any_case('oks', post=False, depth=(0, 1, 1), spaces=('L', 'S', 'L'), maxD=6))
    case['e'] = A.depend(draw, case['e'])
    case['a'] = A.dep_syms(draw, case['e'], SYMS[:2])
    case['v'] = pick(draw, ['z' if case['a'][0] == 'y' else 'y', 'yz', 'sq', 'num'])
    case['b'] = list(pick(draw, SYMS[:2]))
    case['n'] = draw(st.integers(1, 2))
    return case


@PROP.part('chain', chain_case, quick=1000, rule='a symbolic derivative evaluated at a point that depends on symbols, and derived again')
def chain(case):
    w = A.world(case)
    e = A.build(case, w)
    sym, by = sym_of(*case['a']), sym_of(*case['b'])
    y, z = sym_of('y', 'r'), sym_of('z', 'p')
    v = {'y': y, 'z': z, 'yz': y * z, 'sq': 1 + z ** 2, 'num': sympy.Rational(3, 4)}[case['v']]
    if v == sym:
        raise Discard('the same symbol')
    if not isinstance(e, QuantumExpression):
        raise Discard('no derivative')
    d = e.diff(sym, n=case['n'], expand_simplify=False)
    if isinstance(d, QuantumDerivative):
        r = d.evaluate_at({sym: v})
    else:
        r = d.substitute({sym: v})

    def f(w2):
        num = sem.num_sympy(v, w2)
        return fdval(e, w2.with_env(**{case['a'][0]: num}), [[case['a'], case['n']]])

    ref = f(w)
    ensure(agree(A.value(r, w), ref, TOL), '%s at %s = %s is %s', d, sym, v, r)
    ref2, ref3 = (sem.fd(lambda x: f(w.with_env(**{case['b'][0]: x})), w.symval(by), 1, h) for h in (0.04, 0.023))
    if not sem.close(ref2, ref3, TOL):
        raise Discard('no reliable numeric derivative')
    if np.max(np.abs(ref2), initial=0) > 1e4:
        raise Discard('too large')
    if not isinstance(r, QuantumExpression):
        raise Discard('no derivative')
    r2 = r.diff(by, expand_simplify=False)
    ensure(agree(A.value(r2, w), ref2, 10 * TOL), 'derivative of %s by %s is %s', r, by, r2)
    return {'nt': 'Derivative' in ' '.join(A.classes(r)), 'tags': list(A.classes(r2)), 'show': shown(r) + ' -> ' + shown(r2)}


# ------------------------------------------------------------------ constructs with a rule of their own
EXPONENTS = ['y', '1+y', '-1', '2', '3', '1/2', '-y', 'y*z', '3/2', 'z']


@st.composite
def special_case(draw):
    def arg():
        return pick(draw, ['y', 'z', 'y*z', 'y**2', '2*y+1', '1', 'exp(y)', '1/2'])

    def atom(which):
        return [which, pick(draw, 'ABC'), [arg() for _ in range(pick(draw, [0, 1, 1, 2]))], draw(st.integers(0, 1))]

    def op(d):
        t = pick(draw, ['at', 'at', 'at', 'lad'] if d == 0 else ['app', 'app', 'app', 'mul', 'add', 'comm', 'tr', 'adj', 'kb', 'smul', 'pmcc', 'okb'])
        if t == 'at':
            return atom('o')
        if t == 'lad':
            return [pick(draw, ['disp', 'phase', 'sq', 'create', 'destroy', 'disp']), arg(), draw(st.integers(0, 1))]
        if t == 'app':
            return ['app', sop(d - 1), op(d - 1)]
        if t in ('mul', 'add', 'comm'):
            return [t, op(d - 1), op(d - 1)]
        if t in ('tr', 'adj', 'pmcc'):
            return [t, op(d - 1)]
        if t == 'smul':
            return [t, scal(d - 1), op(d - 1)]
        return [t, ket(d - 1), ket(d - 1)]

    def sop(d):
        t = pick(draw, ['at', 'pre', 'post'] if d == 0 else ['at', 'add', 'mul', 'smul', 'adj', 'pre'])
        if t == 'at':
            return atom('p')
        if t in ('pre', 'post'):
            return [t, op(max(d - 1, 0))]
        if t in ('add', 'mul'):
            return [t, sop(d - 1), sop(d - 1)]
        return [t, sop(d - 1)] if t == 'adj' else [t, scal(0), sop(d - 1)]

    def ket(d):
        t = pick(draw, ['at', 'at', 'coh'] if d == 0 else ['ok', 'ok', 'add', 'smul', 'at', 'coh'])
        if t == 'at':
            return ['k', pick(draw, ['Psi', 'Phi']), [arg() for _ in range(pick(draw, [0, 1, 1, 2]))]]
        if t == 'coh':
            return ['coh', arg()]
        if t == 'ok':
            return ['ok', op(d - 1), ket(d - 1)]
        if t == 'add':
            return ['add', ket(d - 1), ket(d - 1)]
        return ['smul', scal(0), ket(d - 1)]

    def scal(d):
        t = pick(draw, ['sym', 'sym', 'bk'] if d == 0 else ['pow', 'pow', 'pow', 'bk', 'mul', 'add'])
        if t == 'sym':
            return ['sym', arg()]
        if t == 'bk':
            return ['bk', ket(max(d - 1, 0)), ket(max(d - 1, 0))]
        if t == 'pow':
            return ['pow', scal(d - 1), pick(draw, EXPONENTS)]
        return [t, scal(d - 1), scal(d - 1)]
    k = pick(draw, 'ooksp')
    d = pick(draw, [1, 1, 2])
    e = op(d) if k == 'o' else ket(d) if k == 'k' else scal(d) if k == 's' else sop(d)
    return {'kind': k, 'e': e, 'd': [[list(pick(draw, SYMS[:2])), 1] for _ in range(pick(draw, [1, 1, 2]))],
            's': list(pick(draw, SYMS[:2])), 'n': draw(st.integers(0, 2)), 'at': [pick(draw, ['1', '1/2', '3/4', '0', '2']), draw(st.integers(0, 3))]}


def special_build(s, hs):
    """hs: one or two spaces"""
    from qnet.algebra.core.operator_algebra import Adjoint, Commutator, OperatorSymbol, OperatorTrace
    from qnet.algebra.core.operator_algebra import OperatorPlusMinusCC
    from qnet.algebra.core.scalar_algebra import ScalarPower, ScalarValue
    from qnet.algebra.core.state_algebra import BraKet, CoherentStateKet, KetBra, KetSymbol
    from qnet.algebra.core.super_operator_algebra import SPost, SPre, SuperOperatorSymbol, SuperOperatorTimesOperator
    from qnet.algebra.library.fock_operators import Create, Destroy, Displace, Phase, Squeeze
    y, z = sym_of('y', 'r'), sym_of('z', 'p')

    def sy(t):
        return sympy.sympify(t, locals={'y': y, 'z': z})

    def sc(t):
        return ScalarValue.create(sy(t))

    def b(s):
        t = s[0]
        if t == 'o':
            return OperatorSymbol(s[1], *[sc(a) for a in s[2]], hs=hs[s[3] % len(hs)])
        if t == 'p':
            return SuperOperatorSymbol(s[1], *[sc(a) for a in s[2]], hs=hs[s[3] % len(hs)])
        if t == 'k':
            return KetSymbol(s[1], *[sc(a) for a in s[2]], hs=hs[0])
        if t in ('disp', 'phase', 'sq'):
            return {'disp': Displace, 'phase': Phase, 'sq': Squeeze}[t](sc('(%s)/4' % s[1]), hs=hs[s[2] % len(hs)])
        if t in ('create', 'destroy'):
            return {'create': Create, 'destroy': Destroy}[t](hs=hs[s[2] % len(hs)])
        if t == 'coh':
            return CoherentStateKet(sc('(%s)/4' % s[1]), hs=hs[0])
        if t == 'sym':
            return sc(s[1])
        if t == 'pow':
            return ScalarPower.create(b(s[1]), sc(s[2]))
        if t == 'bk':
            return BraKet.create(b(s[1]), b(s[2]))
        if t in ('kb', 'okb'):
            return KetBra.create(b(s[1]), b(s[2]))
        if t == 'mul' or t == 'smul' or t == 'ok':
            return b(s[1]) * b(s[2])
        if t == 'add':
            return b(s[1]) + b(s[2])
        if t == 'app':
            return SuperOperatorTimesOperator.create(b(s[1]), b(s[2]))
        if t == 'comm':
            return Commutator.create(b(s[1]), b(s[2]))
        if t == 'tr':
            return OperatorTrace.create(b(s[1]), over_space=hs[-1])
        if t == 'adj':
            return b(s[1]).dag()
        if t == 'pmcc':
            return OperatorPlusMinusCC(b(s[1]))
        if t == 'pre':
            return SPre.create(b(s[1]))
        if t == 'post':
            return SPost.create(b(s[1]))
        raise ValueError(s)
    return b(s)


def special_expr(case):
    t = str(case['e'])
    fock = any(k in t for k in ("'disp'", "'phase'", "'sq'", "'create'", "'destroy'", "'coh'"))
    from ..prog import Prog
    if fock:
        w = sem.World([{'k': 'F', 'l': '0'}], base=3, extra=14)
    else:
        w = sem.World([{'k': 'L', 'l': '0', 'd': 2}, {'k': 'L', 'l': '1', 'd': 2}], base=2, extra=0)
    p = Prog(w)
    hs = [p.hs_of([i]) for i in range(1 if fock else 2)]
    if "'k'" in t or "'coh'" in t:
        hs = hs[:1]
    try:
        return special_build(case['e'], hs), w
    except BasisNotSetError:
        raise Discard('trace over an infinite space')


@PROP.part('special', special_case, quick=1800, rule='constructs with a product or chain rule of their own: powers of scalar expressions, coherent '
           'states, displacements, applied super-operators, commutators, traces, outer products')
def special(case):
    e, w = special_expr(case)
    if not isinstance(e, QuantumExpression):
        raise Discard('a number')
    ref = fdval(e, w, case['d'], 1e-4)
    big = np.max(np.abs(ref), initial=0)
    if big > 1e4:
        raise Discard('too large')
    d = e
    for s, n in case['d']:
        d = d.diff(sym_of(*s), n=n, expand_simplify=False)
        ensure(isinstance(d, Expression), 'derivative %r', d)
    val = A.value(d, w)
    ensure(agree(val, ref, 1e-4), 'derivative of %s by %s is %s: values %s, expected %s', e, case['d'], d,
           np.array2string(raw(val), threshold=12), np.array2string(ref, threshold=12))
    return {'nt': big > 1e-9, 'tags': A.classes(e), 'show': shown(e) + ' -> ' + shown(d)}
