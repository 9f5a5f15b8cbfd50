"""Q12 substitution"""
from .. import env  # noqa
import numpy as np
import sympy
from hypothesis import strategies as st

from .. import anyexpr as A, circ, sem
from ..core import Discard, Property, ensure, shown
from ..gens import chance, pick
from ..prog import sym_of
from ..sem import World

from qnet.algebra.core.abstract_algebra import Expression, substitute
from qnet.algebra.core.circuit_algebra import Circuit, CircuitSymbol, SLH, SeriesProduct
from qnet.algebra.core.exceptions import CannotSimplify
from qnet.algebra.core.hilbert_space_algebra import FullSpace, HilbertSpace, TrivialSpace
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.operator_algebra import IdentityOperator, LocalSigma, Operator, OperatorSymbol, ZeroOperator
from qnet.algebra.core.scalar_algebra import Scalar, ScalarValue
from qnet.algebra.core.state_algebra import Bra, KetSymbol, State, ZeroKet
from qnet.algebra.core.super_operator_algebra import IdentitySuperOperator, SuperOperator, SuperOperatorSymbol, ZeroSuperOperator
from qnet.algebra.pattern_matching import pattern, wc
from qnet.utils.indices import IdxSym

PROP = Property('Q12', '')
TOL = 1e-5
Z = ('y', 'r'), ('z', 'p'), ('a', 'c'), ('u', 'r')


def value(e, w):
    try:
        v = A.value(e, w)
    except sem.SemError as exc:
        if 'unevaluated sympy' in str(exc) or 'infinite sum' in str(exc):
            raise Discard('left to SymPy')
        raise
    except (ZeroDivisionError, OverflowError, np.linalg.LinAlgError):
        raise Discard('singular')
    if not A.finite(v):
        raise Discard('singular')
    return v


def reference(e, w):
    """the value, if it is well-conditioned"""
    v = value(e, w)
    if v[0] != 'c' and not (v[0] in 'kb' and v[1] is None):
        x = v[1][1] if v[0] in 'kb' else v[1]
        if np.max(np.abs(x), initial=0) > 1e4:
            raise Discard('too large')
    return v


def check(e, r, ref, w, what):
    v = value(r, w)
    if not (isinstance(ref, tuple) and A.same_value(ref, v, TOL)):
        # the zero ket, operators that have become numbers
        d = np.max(np.abs(v[1] - ref[1])) if v[0] == ref[0] and v[0] in 'sop' else None
        ensure(False, '%s in %s gives %s, of value %s instead of %s (difference %s)', what, e, r, shownval(v), shownval(ref), d)


def shownval(v):
    return str(v[1] if not hasattr(v[1], 'S') else (v[1].S.tolist(), v[1].L.tolist(), v[1].H.tolist()))[:300]


# ------------------------------------------------------------------ scalar symbols
SYMBOLS = [['y', 'r'], ['z', 'p'], ['x', 'r'], ['t', 'p']]


@st.composite
def target(draw):
    return pick(draw, [['n', 0], ['n', 1], ['n', 2], ['q', 1, 2], ['q', -3, 4], ['f', 0.37], ['sym', 'y'], ['sym', 'z'], ['sym', 'y'], ['sym', 'z'],
                       ['sum', 'y', 'z'], ['prod', 'z', 'y'], ['sq', 'y'], ['sum', 'z', 'y'], ['new', 'v'], ['vs', 'new', 'v'], ['vs', 'n', 3]])


def target_expr(t):
    k = t[0]
    if k == 'n':
        return t[1]
    if k == 'q':
        return sympy.Rational(t[1], t[2])
    if k == 'f':
        return t[1]
    if k == 'new':
        return sympy.Symbol(t[1] + '0', real=True)
    s = {'y': sym_of('y', 'r'), 'z': sym_of('z', 'p')}
    if k == 'sym':
        return s[t[1]]
    if k == 'sum':
        return s[t[1]] + s[t[2]]
    if k == 'prod':
        return 2 * s[t[1]] * s[t[2]]
    if k == 'sq':
        return s[t[1]] ** 2 + 1
    if k == 'vs':
        return ScalarValue.create(target_expr(t[1:]))
    raise ValueError(t)


@st.composite
def symbols_case(draw):
    case = draw(A.any_case('ooookkbssmci', depth=(1, 1, 2, 2)) if chance(draw, 9, 10) else A.any_case('p', depth=(1, 1, 2), post=False))
    if case['kind'] not in 'ic':
        case['e'] = A.depend(draw, case['e'])
    m = {}
    for s in [['y', 'r'], ['z', 'p']][:pick(draw, [1, 2, 2, 2])]:
        m[s[0]] = draw(target())
    if chance(draw, 1, 3):
        m = {'y': ['sym', 'z'], 'z': ['sym', 'y']}
    case['m'] = m
    case['how'] = pick(draw, ['method', 'function', 'extra'])
    return case


@PROP.part('symbols', symbols_case, quick=6000,
           rule='a symbol that occurs in the expression is replaced; often two symbols, exchanged or mentioned in each other\'s replacements')
def symbols(case):
    w = A.world(case)
    e = A.build(case, w)
    kinds = {'y': 'r', 'z': 'p'}
    mapping, envr = {}, {}
    for name, t in sorted(case['m'].items()):
        val = target_expr(t)
        s = sym_of(name, kinds[name])
        mapping[s] = val
        x = val.val if isinstance(val, ScalarValue) else val
        x = complex(sem.num_sympy(sympy.sympify(x), w)).real
        if name == 'z' and x <= 0.05:
            raise Discard('a positive symbol')
        envr[name] = x
    if A.nodes(e) > 150:
        raise Discard('cost')
    ref = reference(e, w.with_env(**envr))
    if case['how'] == 'extra':
        # what does not occur does not matter
        mapping[OperatorSymbol('Unused', hs='unused')] = IdentityOperator
        mapping[sympy.Symbol('unused')] = 3
    r = substitute(e, mapping) if case['how'] == 'function' else e.substitute(mapping)
    ensure(isinstance(r, Expression) or A.kind_of(e) == 's', 'substituting %s in %s gives %r', mapping, e, r)
    check(e, r, ref, w, 'substituting %s' % mapping)
    hit = [s for s in mapping if isinstance(s, sympy.Symbol) and s in e.free_symbols]
    if not hit and not any('Derivative' in c for c in A.classes(e)):
        ensure(r == e, 'substituting %s in %s, which does not depend on them, gives %s', mapping, e, r)
    return {'nt': bool(hit) and any(mapping[s] != s for s in hit), 'tags': A.classes(e) + ['%d symbols' % len(hit)], 'show': shown(e)}


# ------------------------------------------------------------------ sub-expressions
@st.composite
def subs_case(draw):
    case = draw(A.any_case('oooookkkbbppssmcci', depth=(1, 2, 2, 3), post=chance(draw, 1, 3)))
    case['sel'] = [[draw(st.integers(0, 40)), pick(draw, ['fresh', 'fresh', 'fresh', 'scale', 'self', 'plus', 'prod', 'zero', 'neutral', 'adj', 'swap', 'swap'])]
                   for _ in range(pick(draw, [1, 1, 2]))]
    case['via'] = pick(draw, ['method', 'method', 'function', 'rule', 'rules', 'flat'])
    return case


def replaceable(e):
    bound = e.bound_symbols if hasattr(e, 'bound_symbols') else set()
    out = []
    for s in A.subexprs(e):
        if not isinstance(s, (Operator, State, SuperOperator, Scalar, Circuit)) or isinstance(s, ScalarValue):
            continue
        if getattr(s, 'space', None) in (FullSpace, TrivialSpace) and not isinstance(s, (Scalar, Circuit)):
            continue
        if isinstance(s, Scalar) and type(s).__name__ in ('Zero', 'One'):
            continue
        if isinstance(s, Circuit) and s.cdim == 0:
            continue
        if s.free_symbols & bound and (any(isinstance(x, IdxSym) for x in bound)):
            continue
        if any(s == o for o in out):
            continue
        out.append(s)
    return out


def replacement(s, how, others, n):
    """(replacement, None) or None"""
    if how == 'swap':
        for o in others:
            if o == s or type(o).__mro__[-4:] != type(s).__mro__[-4:]:
                continue
            if A.kind_of(o) == A.kind_of(s) and getattr(o, 'space', None) == getattr(s, 'space', None) and getattr(o, 'cdim', None) == getattr(s, 'cdim', None):
                if not any(x == s for x in A.subexprs(o)) and not any(x == o for x in A.subexprs(s)):
                    return o
        how = 'fresh'
    k = A.kind_of(s)
    if k == 's':
        x = sympy.Symbol('v%d' % n, real=True)
        return {'fresh': lambda: ScalarValue.create(x), 'scale': lambda: ScalarValue.create(2 * x), 'self': lambda: 3 * s, 'plus': lambda: s + x, 'prod': lambda: s * x, 'zero': lambda: ScalarValue.create(0),
                'neutral': lambda: ScalarValue.create(1), 'adj': lambda: s.conjugate()}[how]()
    if k == 'c':
        c = CircuitSymbol('Rc%d' % n, cdim=s.cdim)
        return c if how != 'prod' else SeriesProduct.create(c, s)
    if k in 'kb':
        r = KetSymbol('R%d' % n, hs=s.space)
        q = s.ket if isinstance(s, Bra) else s
        if how == 'adj':
            how = 'plus'
        q = {'fresh': lambda: r, 'scale': lambda: 2 * r, 'self': lambda: 3 * q, 'plus': lambda: q + r, 'prod': lambda: OperatorSymbol('R%d' % n, hs=s.space) * q, 'zero': lambda: ZeroKet, 'neutral': lambda: r - q}[how]()
        return q.dag() if k == 'b' else q
    f, one, zero = (OperatorSymbol, IdentityOperator, ZeroOperator) if k == 'o' else (SuperOperatorSymbol, IdentitySuperOperator, ZeroSuperOperator)
    r = f('R%d' % n, hs=s.space)
    return {'fresh': lambda: r, 'scale': lambda: 2 * r, 'self': lambda: 3 * s, 'plus': lambda: s + r, 'prod': lambda: r * s, 'zero': lambda: zero, 'neutral': lambda: one, 'adj': lambda: s.adjoint()}[how]()


@PROP.part('subexpr', subs_case, quick=9000,
           rule='a proper sub-expression (by method, function or by a rule that matches exactly it) is replaced; often two at once, or two exchanged')
def subexpr(case):
    w = A.world(case)
    e = A.build(case, w)
    cand = replaceable(e)
    if not cand:
        raise Discard('nothing to replace')
    if len(cand) > 1 and cand[0] == e and case['via'] != 'flat':
        cand = cand[1:]
    mapping = {}
    for i, (n, how) in enumerate(case['sel']):
        s = cand[n % len(cand)]
        if any(x == s for k in mapping for x in A.subexprs(k)) or any(x == k for k in mapping for x in A.subexprs(s)):
            continue    # overlapping
        try:
            r = replacement(s, how, cand, i)
        except NotImplementedError:
            raise Discard('addition of indexed sums is not implemented')
        if how == 'swap' and any(r == o for o in cand):
            if any(any(x == r for x in A.subexprs(k)) or any(x == k for x in A.subexprs(r)) for k in mapping):
                continue
            mapping[s] = r
            mapping[r] = s
        else:
            mapping[s] = r
    if not all(isinstance(v, Expression) for v in mapping.values()):
        raise Discard('a number')
    bound = {x for x in e.bound_symbols if isinstance(x, IdxSym)}
    for x in A.subexprs(e):
        if type(x).__name__.endswith('Derivative'):
            bound |= set(x.derivs)
    if any((v.free_symbols - k.free_symbols) & bound for k, v in mapping.items()):
        raise Discard('bound symbols in the replacement')
    via = case['via']
    if via in ('rule', 'rules') and any(x == k for k in mapping for v in mapping.values() for x in A.subexprs(v)):
        via = 'method'      # the rule might match again what it has produced
    wo = w.with_over(mapping)
    if any(type(x).__name__.endswith('IndexedSum') for x in A.subexprs(e)) and any(isinstance(x, SLH) for x in A.subexprs(e)):
        raise Discard('cost')
    if via == 'flat':
        s, r = next(iter(mapping.items()))
        got = e.apply_rule(wc('x', conditions=[lambda x: type(x) is type(s) and x == s]), lambda x: r, recursive=False)
        ensure(got == (r if s == e else e), 'applying %s -> %s non-recursively to %s gives %s', s, r, e, got)
        return {'nt': s == e, 'tags': ['flat'], 'show': shown(e)}
    ref = reference(e, wo)
    try:
        if via == 'method':
            got = e.substitute(mapping)
        elif via == 'function':
            got = substitute(e, mapping)
        else:
            rules = []
            for k, v in mapping.items():
                rules.append((wc('x', conditions=[lambda x, k=k: type(x) is type(k) and x == k]), lambda x, v=v: v))
            if via == 'rules':
                def no(x):
                    raise CannotSimplify
                rules.insert(0, (wc('x'), no))
                got = e.apply_rules(dict(('r%d' % i, r) for i, r in enumerate(rules)))
            else:
                if len(rules) > 1:
                    got = e.apply_rules(rules)
                else:
                    got = e.apply_rule(*rules[0])
    except NotImplementedError:
        if 'IndexedSum' in ' '.join(A.classes(e)):
            raise Discard('addition of indexed sums is not implemented')
        raise
    what = '%s with %s' % ({'rule': 'applying a rule', 'rules': 'applying rules'}.get(via, 'substitution'), mapping)
    check(e, got, ref, w, what)
    nt = any(k != e for k in mapping)
    return {'nt': nt, 'tags': A.classes(e) + [via] + [type(k).__name__ + '>' for k in mapping], 'show': shown(e)}


# ------------------------------------------------------------------ nothing changes
@st.composite
def identity_case(draw):
    case = draw(A.any_case('oooookkbbppssmcci', depth=(1, 2, 2, 3)))
    case['how'] = pick(draw, ['empty', 'self', 'subs', 'unused', 'norule', 'rebuild'])
    return case


@PROP.part('identity', identity_case, quick=4000, rule='a mapping of every sub-expression and symbol to itself, of others to anything, rules that do not apply, rebuild')
def identity(case):
    w = A.world(case)
    e = A.build(case, w)
    how = case['how']
    subs = A.subexprs(e)
    if how == 'empty':
        r = e.substitute({})
    elif how == 'self':
        r = e.substitute({e: e})
    elif how == 'subs':
        m = {s: s for s in subs if not isinstance(s, ScalarValue) or s.free_symbols}   # not labels that are numbers
        m.update({s: s for s in e.free_symbols})
        r = e.substitute(m)
        for s in list(m)[1:4]:
            r2 = e.substitute({s: s})
            ensure(r2 == e and (type(r2) is type(e) or A.kind_of(e) == 's'), 'substituting %s for itself in %s gives %s', s, e, r2)
    elif how == 'unused':
        r = e.substitute({OperatorSymbol('Unused', hs='unused'): IdentityOperator, KetSymbol('Unused', hs='unused'): ZeroKet, sympy.Symbol('unused'): 3,
                          SuperOperatorSymbol('Unused', hs='unused'): IdentitySuperOperator, CircuitSymbol('Unused', cdim=2): CircuitSymbol('Other', cdim=2)})
    elif how == 'norule':
        r = e.apply_rules([(pattern(OperatorSymbol, 'Unused', hs=wc('h')), lambda h: IdentityOperator),
                           (pattern(LocalSigma, wc('j'), wc('k'), hs='unused'), lambda j, k: IdentityOperator)])
    else:
        r = e.rebuild()
    ensure((type(r) is type(e) or A.kind_of(e) == 's') and r == e, '%s: %s gives %s', how, e, r)
    return {'nt': len(subs) > 2, 'tags': [how, case['kind']], 'show': shown(e)}


# ------------------------------------------------------------------ Hilbert spaces
@st.composite
def relabel_case(draw):
    case = draw(A.any_case('ooookkbppssmci', depth=(1, 1, 2, 2), post=False))
    n = len(case['w'])
    case['new'] = {}
    for i in range(n):
        if chance(draw, 2, 3):
            case['new'][str(i)] = pick(draw, ['0', 'zz', '5', 'a', 'M', '10', 'q7'])
    if n > 1 and chance(draw, 1, 3):
        case['swap'] = True
    return case


@PROP.part('spaces', relabel_case, quick=2500, rule='the label of at least one of the local spaces of the expression changes, possibly exchanging two spaces')
def spaces(case):
    w = A.world(case)
    e = A.build(case, w)
    js = [dict(j) for j in case['w']]
    if case.get('swap') and dict(js[0], l=0) == dict(js[1], l=0):
        js[0]['l'], js[1]['l'] = js[1]['l'], js[0]['l']
    else:
        for i, l in case['new'].items():
            js[int(i)]['l'] = l
    labels = [str(j['l']) for j in js]
    if len(set(labels)) < len(labels):
        raise Discard('labels clash')
    for j, o in zip(js, case['w']):
        j['a'] = str(o['l'])
    w2 = World(js, base=w.base, extra=w.extra)
    w2.env, w2.idx = w.env, w.idx
    mapping = {a.hs: b.hs for a, b in zip(w.spaces, w2.spaces) if a.hs != b.hs}
    if not mapping:
        raise Discard('nothing changes')
    ref = reference(e, w)
    r = e.substitute(mapping)
    v = value(r, w2)
    if v[0] in 'kb' and v[1] is not None:
        v = v[0], (tuple(w2.by_label[lb].alias for lb in v[1][0]), v[1][1])
    ensure(A.same_value(ref, v, TOL), 'substituting %s in %s gives %s, of value %s instead of %s', mapping, e, r, shownval(v), shownval(ref))
    left = [h for s in A.subexprs(r) if isinstance(s, Expression) and hasattr(s, 'space') and isinstance(s.space, HilbertSpace)
            and s.space is not FullSpace for h in s.space.local_factors]
    new = [s.hs for s in w2.spaces]
    ensure(all(any(h == x for x in new) for h in left), 'substituting %s in %s gives %s, which acts on %s', mapping, e, r, set(left))
    used = getattr(e, 'space', FullSpace)
    used = () if used is FullSpace else used.local_factors
    return {'nt': any(h in mapping for h in used), 'tags': A.classes(e), 'show': shown(e)}
