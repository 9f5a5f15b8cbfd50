"""Q10 canonical, idempotent normal form"""
import numpy as np
import sympy
from hypothesis import strategies as st

from .. import anyexpr as A
from .. import cgens, circ
from ..core import Discard, Property, ensure, shown
from ..gens import Ctx, chance, fixkinds, ket as g_ket, op as g_op, pick, scalar as g_scalar, sop as g_sop, world_js
from ..prog import Prog
from ..sem import World

from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.abstract_quantum_algebra import QuantumPlus, ScalarTimesQuantumExpression
from qnet.algebra.core.circuit_algebra import Concatenation, SeriesProduct, circuit_identity
from qnet.algebra.core.hilbert_space_algebra import LocalSpace, ProductSpace, TrivialSpace
from qnet.algebra.core.operator_algebra import IdentityOperator, OperatorPlus, OperatorTimes, OperatorSymbol, ZeroOperator
from qnet.algebra.core.scalar_algebra import One, Scalar, ScalarPlus, ScalarTimes, ScalarValue, Zero
from qnet.algebra.core.state_algebra import Bra, BraKet, KetPlus, TensorKet, TrivialKet, ZeroKet
from qnet.algebra.core.super_operator_algebra import IdentitySuperOperator, SuperOperatorPlus, ZeroSuperOperator

PROP = Property('Q10', '')


def identical(a, b):
    """equal, with equal hash and of the same class (numbers aside)"""
    if not (isinstance(a, Expression) and isinstance(b, Expression)):
        return type(a) is type(b) and a == b
    if not (bool(a == b) and bool(b == a) and hash(a) == hash(b)):
        return False
    return type(a) is type(b) or all(isinstance(x, Scalar) for x in (a, b))


# ------------------------------------------------------------------ re-creation
@PROP.part('recreate', lambda: A.any_case(kinds='oookkbppsscmi', amp=True), quick=6000,
           rule='expression with at least three sub-expressions, every one of them created again from its own parts')
def recreate(case):
    w = A.world(case)
    e = A.build(case, w)
    parts = A.subexprs(e)
    for x in parts:
        if not isinstance(x, Expression):
            continue
        try:
            y = type(x).create(*x.args, **x.kwargs)
        except NotImplementedError:
            raise Discard('not implemented')
        ensure(identical(x, y), 'creating %r from its own parts gives %r', x, y)
        if isinstance(x, Scalar):
            continue
    r = e.rebuild()
    ensure(identical(e, r), 'rebuilding %r gives %r', e, r)
    for _ in range(2):
        r = r.rebuild()
    ensure(identical(e, r), 'rebuilding %r three times gives %r', e, r)
    return {'nt': len(parts) >= 3, 'tags': [case['kind']] + sorted({type(x).__name__ for x in parts}), 'show': shown(e)}


# ------------------------------------------------------------------ operand order, grouping, neutral elements
KINDS = {'O+': 'operator sum', 'K+': 'ket sum', 'B+': 'bra sum', 'P+': 'super-operator sum', 'Kx': 'tensor product of kets', 'S+': 'scalar sum',
         'S*': 'scalar product', 'O*': 'operator product', 'P*': 'super-operator product', 'C<': 'series product', 'C+': 'concatenation',
         'H*': 'Hilbert space product'}
COMMUTE = {'O+', 'K+', 'B+', 'P+', 'Kx', 'S+', 'S*', 'H*'}


def exact(s):
    """no floating point numbers, their sums depend on the order"""
    if isinstance(s, list):
        if s and s[0] == 'f':
            return ['q', 3, 2, 's']
        if s and s[0] in ('z', 'exp', '+', '-', '/', 'conj'):
            # sums of numbers: SymPy distributes some factors over sums
            return ['sym', 'xyzw'[len(str(s)) % 4], 'xyzw'[len(str(s)) % 4].translate(str.maketrans('xyzw', 'crpc')), 's']
        if s and s[0] == 'q':
            return s[:-1] + ['s']
        return [exact(x) for x in s]
    return s


def symbols_only(s):
    """operators without rewrite rules (associativity in the presence of the rules is the subject of Q01)"""
    if isinstance(s, list):
        if s and s[0] in ('sigma', 'proj', 'jz', 'jp', 'jm', 'create', 'destroy', 'phase', 'disp', 'sq'):
            return ['osym', {'sigma': 'E', 'proj': 'F'}.get(s[0], 'G'), [s[1]]]
        if s and s[0] in ('kb', ):
            return ['id']
        if s and s[0] in ('pre', 'post', 'scomm', 'scomm2', 'sacomm', 'lind', 'liou'):
            return ['ssym', 'T', [0]]
        return [symbols_only(x) for x in s]
    return s


def mono(draw):
    """coefficient whose products and sums are canonical in SymPy"""
    c = draw(st.integers(0, 5))
    f = pick(draw, ['s', 'v'])
    if c <= 2:
        return ['i', pick(draw, [2, -1, 3, 1, -2]), pick(draw, ['p', 's', 'v'])]
    if c == 3:
        return ['q', 1, pick(draw, [2, 3]), f]
    if c == 4:
        return ['*', [['i', pick(draw, [2, -1]), 's'], ['sym', pick(draw, ['x', 'y', 'z']), 'c', 's']]]
    return ['sym', pick(draw, ['x', 'y', 'z']), 'c', f]


@st.composite
def grouping(draw, n):
    """a binary tree over the positions 0..n-1"""
    def rec(a, b):
        if b - a == 1:
            return a
        m = draw(st.integers(a + 1, b - 1))
        return [rec(a, m), rec(m, b)]
    return rec(0, n)


@st.composite
def commut_case(draw):
    kind = pick(draw, ['O+', 'O+', 'O+', 'K+', 'K+', 'B+', 'P+', 'P+', 'Kx', 'Kx', 'S+', 'S+', 'S*', 'S*', 'O*', 'O*', 'P*', 'C<', 'C+', 'H*'])
    big = kind in ('Kx', )
    ws = draw(world_js(nmax=1 if kind in ('C<', 'C+') else 2 if kind[0] == 'P' else 4, nmin=3 if big else 1, kinds=('L', 'S', 'F') if kind[0] not in 'PC' else ('L', ),
                       maxD=10000, maxdim=3 if kind[0] != 'P' else 2))
    n = draw(st.integers(2, 5))
    ctx = Ctx(ws, trace=False, pinv=False, symargs=True, kets=kind[0] != 'C')
    ns = len(ws)
    ops = []
    if kind == 'C<':
        cd = draw(st.integers(1, 3))
        cc = cgens.CCtx(ctx, comps=('W', 'Phase', 'BS', 'VA', 'VB'), atoms=(), slh=False, maxn=4)
        ops = [cgens.fixargs(draw(cgens.circuit(cc, cd, 1))) for _ in range(n)]
    elif kind == 'C+':
        cc = cgens.CCtx(ctx, comps=('W', 'Phase', 'BS', 'VA', 'VB'), atoms=(), slh=False, maxn=4)
        ops = [cgens.fixargs(draw(cgens.circuit(cc, draw(st.integers(1, 2)), 1))) for _ in range(n)]
    elif kind == 'Kx':
        perm = list(draw(st.permutations(range(ns))))
        while perm:
            k = draw(st.integers(1, max(1, min(2, len(perm) - 1)))) if ops == [] else draw(st.integers(1, min(2, len(perm))))
            x = fixkinds(draw(g_ket(ctx, sorted(perm[:k]), pick(draw, [0, 0, 1]))))
            if chance(draw, 1, 4):
                x = ['ksmul', mono(draw), x]
            ops.append(x)
            perm = perm[k:]
    elif kind == 'H*':
        ops = [sorted(draw(st.permutations(range(ns)))[:draw(st.integers(0, min(2, ns)))]) for _ in range(n)]
    else:
        d = pick(draw, [0, 0, 1, 1, 2])
        while len(ops) < n:
            if ops and chance(draw, 1, 4):
                x = ops[draw(st.integers(0, len(ops) - 1))]
            elif kind[0] == 'O':
                x = draw(g_op(ctx, d))
            elif kind[0] in 'KB':
                x = draw(g_ket(ctx, list(range(ns)), d))
            elif kind[0] == 'P':
                x = draw(g_sop(ctx, min(d, 1)))
            else:
                i = draw(st.integers(0, ns - 1))
                x = pick(draw, [['bk', draw(g_ket(ctx, [i], 0)), draw(g_ket(ctx, [i], 0))], mono(draw)])
                if kind == 'S*' and chance(draw, 1, 3):
                    x = ['**', x, draw(st.integers(1, 3))]
                if kind == 'S+' and chance(draw, 1, 3):
                    x = ['*', [mono(draw), x]]
            if kind in ('O+', 'O*') and chance(draw, 1, 3):
                x = ['smul', mono(draw), x]
            elif kind in ('K+', 'B+') and chance(draw, 1, 3):
                x = ['ksmul', mono(draw), x]
            elif kind in ('P+', 'P*') and chance(draw, 1, 3):
                x = ['ssmul', mono(draw), x]
            ops.append(x)
        ops = fixkinds(ops)
    ops = exact(ops)
    if kind in ('O*', 'P*'):
        ops = symbols_only(ops)
    n = len(ops)
    if n < 2:
        ops = ops * 2 if kind != 'Kx' else ops
        n = len(ops)
    ways = []
    for _ in range(draw(st.integers(2, 3))):
        way = {'tree': draw(grouping(n))} if n > 1 and chance(draw, 1, 2) else {}
        if kind in COMMUTE:
            way['perm'] = list(draw(st.permutations(range(n))))
        if chance(draw, 1, 3):
            way['neut'] = draw(st.lists(st.integers(0, n), min_size=1, max_size=2))
        if chance(draw, 1, 3):
            way['op'] = 1
        ways.append(way)
    return {'w': ws, 'kind': kind, 'ops': ops, 'ways': ways}


SET = {
    'O+': (OperatorPlus, lambda a, b: a + b, [ZeroOperator]),
    'O*': (OperatorTimes, lambda a, b: a * b, [IdentityOperator]),
    'K+': (KetPlus, lambda a, b: a + b, [ZeroKet]),
    'B+': (None, lambda a, b: a + b, [ZeroKet]),
    'P+': (SuperOperatorPlus, lambda a, b: a + b, [ZeroSuperOperator]),
    'P*': (__import__('qnet').SuperOperatorTimes, lambda a, b: a * b, [IdentitySuperOperator]),
    'Kx': (TensorKet, lambda a, b: a * b, [TrivialKet]),
    'S+': (ScalarPlus, lambda a, b: a + b, [Zero]),
    'S*': (ScalarTimes, lambda a, b: a * b, [One]),
    'C<': (SeriesProduct, lambda a, b: a << b, []),
    'C+': (Concatenation, lambda a, b: a + b, []),
    'H*': (ProductSpace, lambda a, b: a * b, [TrivialSpace]),
}


def sum_multiple(v):
    terms = v.operands if isinstance(v, QuantumPlus) else [v]
    return any(isinstance(t, ScalarTimesQuantumExpression) and isinstance(t.term, QuantumPlus) for t in terms)


def guard(x, w=World([])):
    """discard divisions by zero"""
    p = Prog(w)

    def rec(y):
        if isinstance(y, list):
            if y and y[0] in ('odiv', 'kdiv', 'sdiv', 'bradiv', '/') and abs(p.ref_scalar(y[2])) < 1e-9:
                raise Discard('division by zero')
            for z in y:
                rec(z)
    try:
        rec(x)
    except (IndexError, KeyError):
        raise Discard('division by a scalar product')


def combine(kind, vals, way):
    cls, f, neutral = SET[kind]
    vals = [vals[i] for i in way.get('perm', range(len(vals)))]
    neutral = list(neutral)
    if kind == 'C<' and len(vals):
        neutral = [circuit_identity(vals[0].cdim)]
    if kind == 'C+':
        neutral = [circuit_identity(0)]
    if kind == 'B+':
        neutral = [ZeroKet.dag()]

    use_op = way.get('op') or cls is None

    def join(xs):
        if use_op:
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
            return r
        if len(xs) == 1:
            return xs[0]
        return cls.create(*xs)
    if 'tree' in way:
        def rec(t):
            if isinstance(t, int):
                x = vals[t]
                for k in way.get('neut', []):
                    if k == t and neutral:
                        x = join([x, neutral[0]])
                return x
            return join([rec(y) for y in t])
        return rec(way['tree'])
    seq = list(vals)
    for k in way.get('neut', []):
        if neutral:
            seq.insert(k, neutral[0])
    return join(seq)


@PROP.part('commut', commut_case, quick=7000,
           rule='at least two operands, combined in two or more orders, groupings or with neutral elements, giving an operation with several operands')
def commut(case):
    kind = case['kind']
    w = World(case['w'], base=3, extra=4)
    p = Prog(w)
    vals = []
    for x in case['ops']:
        if kind == 'H*':
            vals.append(p.hs_of(x) if x else TrivialSpace)
        elif kind[0] == 'C':
            circ.CProg(w).ref(x)
            try:
                vals.append(circ.CProg(w).build(x))
            except Exception as exc:
                if 'not implemented' in str(exc):
                    raise Discard('not implemented')
                raise
        elif kind[0] == 'O':
            guard(x)
            vals.append(p.build_op(x))
        elif kind[0] == 'P':
            guard(x)
            vals.append(p.build_sop(x))
        elif kind[0] == 'S':
            guard(x)
            v = p.build_scalar(x)
            vals.append(v if isinstance(v, Scalar) else ScalarValue.create(v))
        else:
            guard(x)
            v = p.build_ket(x)
            vals.append(v.dag() if kind == 'B+' else v)
    if kind in ('O+', 'K+', 'B+', 'P+') and any(sum_multiple(v.ket if kind == 'B+' and isinstance(v, Bra) else v) for v in vals):
        raise Discard('multiple of a sum: sums are not distributed automatically')
    if kind in ('O*', 'P*') and any(isinstance(x, Expression) and isinstance(x, QuantumPlus) for v in vals for x in A.subexprs(v)):
        raise Discard('product with sums: only the factor -1 is distributed automatically')
    first = combine(kind, vals, {})
    for way in case['ways']:
        y = combine(kind, vals, way)
        ensure(identical(first, y), '%s of %r gives %r, but %r if combined like %s', KINDS[kind], vals, first, y, way)
    nt = len(vals) > 1 and len(first.args) > 1
    return {'nt': nt, 'tags': [kind], 'show': shown(first)}


# ------------------------------------------------------------------ order of operator products
@st.composite
def opsort_case(draw):
    ns = draw(st.integers(2, 4))
    ws = draw(world_js(nmin=ns, nmax=ns, kinds=('L', 'S', 'F'), maxD=10000))
    n = draw(st.integers(2, 7))
    word = []
    for _ in range(n):
        k = pick(draw, [1, 1, 1, 1, 2, 2, 3])
        sp = sorted(draw(st.permutations(range(ns)))[:min(k, ns)])
        c = draw(st.integers(0, 7))
        if len(sp) == 1 and c == 0:
            word.append(['sop', 'dest' if ws[sp[0]]['k'] == 'F' else 'sym', sp])
        elif c == 1:
            word.append(['dag', pick(draw, 'ABC'), sp])
        elif c == 2:
            word.append(['sum', pick(draw, 'ABC'), pick(draw, 'DE'), sp])
        else:
            word.append(['sym', pick(draw, 'ABC'), sp])
    return {'w': ws, 'word': word, 'moves': draw(st.lists(st.integers(0, n - 2), min_size=1, max_size=12)), 'tree': draw(grouping(n)),
            'coef': draw(st.lists(st.integers(0, n - 1), max_size=2))}


@PROP.part('opsort', opsort_case, quick=5000,
           rule='a product of operator symbols in which at least two neighbours on disjoint spaces were exchanged')
def opsort(case):
    w = World(case['w'], base=3)
    p = Prog(w)
    word = []
    for x in case['word']:
        hs = p.hs_of(x[-1])
        if x[0] == 'dag':
            v = OperatorSymbol(x[1], hs=hs).dag()
        elif x[0] == 'sum':
            v = OperatorSymbol(x[1], hs=hs) + OperatorSymbol(x[2], hs=hs)
        else:
            v = OperatorSymbol(x[1] if x[0] == 'sym' else 'L', hs=hs)
        word.append((v, frozenset(x[-1])))
    e1 = OperatorTimes.create(*[v for v, _ in word])
    other = list(word)
    moved = 0
    for i in case['moves']:
        (a, sa), (b, sb) = other[i], other[i + 1]
        if not sa & sb:
            other[i], other[i + 1] = (b, sb), (a, sa)
            moved += a != b
    e2 = OperatorTimes.create(*[v for v, _ in other])
    ensure(identical(e1, e2), '%r and %r differ only by exchanges of operators on disjoint spaces', e1, e2)

    def rec(t):
        return other[t][0] if isinstance(t, int) else rec(t[0]) * rec(t[1])
    e3 = rec(case['tree'])
    ensure(identical(e1, e3), 'the product with parentheses %s is %r instead of %r', case['tree'], e3, e1)
    vals = [v for v, _ in other]
    c = sympy.Symbol('c0')
    for i in case['coef']:
        vals[i] = c * vals[i]
    e4 = OperatorTimes.create(*vals)
    k = len(case['coef'])
    ensure(identical(e4, c**k * e1 if k else e1), 'with coefficients at %s the product is %r', case['coef'], e4)
    # the word is a rearrangement with the same order per degree of freedom
    got = list(e1.operands) if isinstance(e1, OperatorTimes) else [e1]
    ensure(sorted(map(str, got)) == sorted(str(v) for v, _ in word), 'the factors of %r are not those of the product', e1)
    for i in range(len(case['w'])):
        lb = p.labels([i])[0]
        seq = [v for v, s in word if i in s]
        seq2 = [v for v in got if lb in w.labels_of(v.space)]
        ensure(seq == seq2, 'the order of the operators on %s was changed: %r instead of %r', lb, seq2, seq)
    # neighbours are in canonical order
    for a, b in zip(got, got[1:]):
        if a.space.isdisjoint(b.space):
            ensure(a.space._order_key < b.space._order_key, '%r is not in canonical order', e1)
    return {'nt': moved >= 2, 'tags': ['moved%d' % min(moved, 5)], 'show': shown(e1)}


KNOWN = {}
