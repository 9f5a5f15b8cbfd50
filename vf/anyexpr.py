"""Arbitrary expressions of every kind (operators, kets, bras, super-operators, scalars, circuits, matrices, indexed sums) with
optional post-processing, and their values.

Case: {'w': spaces, 'kind': letter, 'e': spec, 'post': [...], 'free': {index name: value}}; kinds: o operator, k ket, b bra, p
super-operator, s scalar, c circuit, m matrix, i indexed sum.
"""
import numpy as np
import sympy
from hypothesis import strategies as st

from . import env  # noqa
from . import cgens, circ, isum, sem
from .core import Discard, ensure
from .gens import Ctx, chance, fixkinds, ket as g_ket, op as g_op, op_leaf, pick, scalar as g_scalar, scalar_leaf, sop as g_sop, world_js
from .prog import Prog, degree, sym_of
from .sem import World, close, low_block, low_block_super

from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.circuit_algebra import Circuit
from qnet.algebra.core.exceptions import AlgebraError
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.operator_algebra import Operator
from qnet.algebra.core.scalar_algebra import Scalar
from qnet.algebra.core.state_algebra import State
from qnet.algebra.core.super_operator_algebra import SuperOperator
from qnet.utils.indices import IdxSym

NAMES = {'o': 'operator', 'k': 'ket', 'b': 'bra', 'p': 'super-operator', 's': 'scalar', 'c': 'circuit', 'm': 'matrix', 'i': 'indexed sum'}


def level_count(js):
    return js['d'] if js['k'] == 'L' else js['s2'] + 1 if js['k'] == 'S' else 3


# ------------------------------------------------------------------ generation
@st.composite
def any_case(draw, kinds='oookkbppsscmi', depth=(1, 2, 2, 3), post=True, symargs=True, spaces=('L', 'S', 'F', 'L'), maxD=12, amp=False,
             coh=False, trace=True, pinv=True, only_finite=False):
    kind = pick(draw, list(kinds))
    if kind in 'pc':
        spaces = tuple(s for s in spaces if s != 'F') or ('L', )
    d = pick(draw, list(depth))
    nmax = {'p': 2, 'c': 1, 'i': 2, 's': 2, 'm': 2}.get(kind, 3)
    ws = draw(world_js(nmax=nmax, kinds=spaces, maxD={'p': 4, 'c': 3, 'i': 9}.get(kind, maxD), maxdim=3))
    fin = not any(js['k'] == 'F' for js in ws)
    ctx = Ctx(ws, trace=trace, pinv=pinv and fin, symargs=symargs, coh=coh and not fin, amp=amp, kets=kind != 'c')
    case = {'w': ws, 'kind': kind}
    n = len(ws)
    if kind == 'o':
        e = draw(g_op(ctx, d))
    elif kind in 'kb':
        e = draw(g_ket(ctx, list(range(n)), d))
    elif kind == 'p':
        e = draw(g_sop(ctx, min(d, 2)))
    elif kind == 's':
        e = draw(g_scalar(ctx, d))
        if e[0] not in ('bk', ) and chance(draw, 1, 2):
            i = draw(st.integers(0, n - 1))
            b = ['bok', draw(g_ket(ctx, [i], 1)), draw(g_op(ctx, 1, [i])), draw(g_ket(ctx, [i], 1)), draw(st.integers(0, 1))] if chance(draw, 1, 2) else [
                'bk', draw(g_ket(ctx, [i], 1)), draw(g_ket(ctx, [i], 1))]
            e = [pick(draw, ['+', '*']), [e, b]]
    elif kind == 'c':
        atoms = ('tls', ) if chance(draw, 1, 2) else ()
        cc = cgens.CCtx(ctx, comps=('W', 'Phase', 'BS', 'VA', 'VB'), atoms=(), slh=True, maxn=4)
        del atoms
        e = cgens.fixargs(draw(cgens.circuit(cc, draw(st.integers(1, 3)), d)))
        return dict(case, e=e)
    elif kind == 'm':
        r, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        e = [[draw(g_op(ctx, min(d, 1))) if chance(draw, 2, 3) else ['sc', draw(g_scalar(ctx, 1))] for _ in range(c)] for _ in range(r)]
    else:
        for js in ws:
            if js['k'] == 'S':
                js.pop('b', None)
        nlev = [level_count(js) for js in ws]
        g = isum.Gen(ws, nlev, False)
        free = {}
        if chance(draw, 1, 2):
            for nm in draw(st.permutations(isum.NAMES[:3]))[:draw(st.integers(1, 2))]:
                free[nm] = draw(st.integers(0, min(nlev) - 1))
        sc = isum.Scope({nm: (v, ) for nm, v in free.items()})
        t = pick(draw, ['sc', 'ket', 'op'])
        sp = list(range(n))
        e = g.sc_expr(draw, sp, sc, 2) if t == 'sc' else g.ket(draw, sp, sc, 2) if t == 'ket' else g.op(draw, sp, sc, 2)
        return dict(case, e=e, free=free, t=t)
    case['e'] = fixkinds(e)
    if post:
        case['post'] = draw(st.lists(post_op(kind), max_size=2))
    return case


# the real ones only: conjugated complex symbols are not differentiable
SYMS = [('y', 'r'), ('z', 'p')]
ARGS = [['sym', 'y', 'r', 's'], ['sym', 'z', 'p', 's'], ['sym', 'y', 'r', 'v'], ['*', [['sym', 'y', 'r', 's'], ['sym', 'z', 'p', 's']]],
        ['**', ['sym', 'y', 'r', 's'], 2], ['+', [['sym', 'y', 'r', 's'], ['i', 1, 's']]], ['*', [['i', 2, 's'], ['sym', 'z', 'p', 's']]]]


def dep_syms(draw, spec, syms):
    """a symbol, usually one that occurs"""
    t = str(spec)
    names = [s for s in syms if "['sym', '%s'" % s[0] in t]
    return list(pick(draw, names if names and chance(draw, 9, 10) else syms))


def depend(draw, s):
    """let the leaves of a program depend on y and z"""
    if not isinstance(s, list) or not s:
        return s
    if s[0] in ('i', 'q', 'f', 'z') and not isinstance(s[1], list) and chance(draw, 1, 2):
        return pick(draw, ARGS)
    if s[0] == 'sym' and chance(draw, 1, 2):
        return pick(draw, ARGS[:3])
    if s[0] in ('osym', 'ksym', 'ssym') and len(s) == 3 and chance(draw, 2, 3):
        return s + [[pick(draw, ARGS) for _ in range(pick(draw, [1, 1, 2]))]]
    if s[0] in ('i', 'q', 'f', 'z', 'sym'):
        return s
    return [depend(draw, x) for x in s]


@st.composite
def post_op(draw, kind):
    t = pick(draw, ['expand', 'adjoint', 'diff', 'diff', 'diffat', 'simplify', 'doit'] if kind in 'okbp' else ['diff', 'diffat', 'diff']
             if kind == 's' else ['expand', 'adjoint', 'transpose'])
    if t == 'diff':
        return [t, list(pick(draw, SYMS)), draw(st.integers(1, 2))]
    if t == 'diffat':
        return [t, list(pick(draw, SYMS)), draw(st.integers(1, 2)), pick(draw, [['i', 0, 's'], ['i', 1, 's'], ['q', 1, 2, 's'],
                                                                                ['sym', 'y', 'r', 's']])]
    return [t]


# ------------------------------------------------------------------ construction
def world(case, extra=None):
    if case['kind'] == 'i':
        w = World(case['w'], base=3, extra=4)
        f = case.get('free') or {}
        return w.with_idx({(n, 0): v for n, v in f.items()}) if f else w
    deg = degree(case['e']) if case['kind'] not in 'cm' else 3 if case['kind'] == 'm' else 0
    if deg > 6 and any(js['k'] == 'F' for js in case['w']):
        raise Discard('degree too high')
    w = World(case['w'], base=3, extra=deg + 2 if extra is None else extra)
    if w.dim(w.all) > 150:
        raise Discard('too large')
    return w


def build(case, w):
    return post(build0(case, w), case.get('post') or [])


def build0(case, w):
    kind, e = case['kind'], case['e']
    p = Prog(w)
    if kind in 'okbps':
        # discards what divides by zero
        {'o': p.ref_op, 'k': p.ref_ket, 'b': p.ref_ket, 'p': p.ref_sop, 's': p.ref_scalar}[kind](e)
    if kind == 'm':
        for x in (x for row in e for x in row):
            p.ref_scalar(x[1]) if x[0] == 'sc' else p.ref_op(x)
    if kind == 'o':
        return p.build_op(e)
    if kind == 'k':
        return p.build_ket(e)
    if kind == 'b':
        return p.build_ket(e).dag()
    if kind == 'p':
        return p.build_sop(e)
    if kind == 's':
        from qnet.algebra.core.scalar_algebra import ScalarValue
        r = p.build_scalar(e)
        return r if isinstance(r, Scalar) else ScalarValue.create(r)
    if kind == 'c':
        circ.CProg(w).ref(e)     # discards ill-posed feedback loops
        try:
            return circ.CProg(w).build(e)
        except AlgebraError as exc:
            if 'not implemented' in str(exc):
                raise Discard('feedback of operator-valued scattering')
            raise
    if kind == 'm':
        return Matrix([[p.build_scalar(x[1]) if x[0] == 'sc' else p.build_op(x) for x in row] for row in e])
    if isum.n_terms(e, isum.ISum(w)) > 300:
        raise Discard('too many terms')
    r = isum.ISum(w).build(e)
    if not isinstance(r, Expression):
        from qnet.algebra.core.scalar_algebra import ScalarValue
        r = ScalarValue.create(r)
    return r


def post(e, ops):
    for o in ops:
        t = o[0]
        if t == 'expand':
            e = e.expand()
        elif t == 'adjoint':
            e = e.adjoint()
        elif t == 'transpose':
            e = e.transpose()
        elif t == 'simplify':
            e = e.simplify_scalar()
        elif t == 'doit':
            e = e.doit()
        elif t == 'diff':
            e = e.diff(sym_of(*o[1]), n=o[2], expand_simplify=False)
        elif t == 'diffat':
            e = e.diff(sym_of(*o[1]), n=o[2], expand_simplify=False)
            if hasattr(e, 'evaluate_at'):
                v = sym_of(o[3][1], o[3][2]) if o[3][0] == 'sym' else sympy.Rational(o[3][1], o[3][2]) if o[3][0] == 'q' else sympy.Integer(o[3][1])
                e = e.evaluate_at({sym_of(*o[1]): v})
        else:
            raise ValueError(o)
        if not isinstance(e, Expression):
            raise Discard('post operation gave a number')
    return e


# ------------------------------------------------------------------ values
def kind_of(e):
    if isinstance(e, Scalar) or not isinstance(e, Expression):
        return 's'
    if isinstance(e, Operator):
        return 'o'
    if isinstance(e, State):
        return 'b' if e.isbra else 'k'
    if isinstance(e, SuperOperator):
        return 'p'
    if isinstance(e, Circuit):
        return 'c'
    if isinstance(e, Matrix):
        return 'm'
    raise ValueError(type(e))


def value(e, w):
    """(kind, data)"""
    k = kind_of(e)
    if k == 's':
        return k, np.array(sem.scalar(e, w))
    if k == 'o':
        return k, low_block(sem.op(e, w), w)
    if k in 'kb':
        lab, v = sem.ket(e.ket, w) if k == 'b' else sem.ket(e, w)
        if lab is None:
            return k, None
        return k, (tuple(lab), low_block(v, w, lab))
    if k == 'p':
        return k, low_block_super(sem.superop(e, w), w)
    if k == 'c':
        return k, circ.model_of(e, w)
    a = np.array([[low_block(sem.op_or_scalar_matrix(x, w), w) for x in row] for row in e.matrix])
    return k, a


def same_value(a, b, tol=1e-6):
    if a[0] != b[0]:
        return False
    k, x = a
    y = b[1]
    if k in 'kb':
        if x is None or y is None:
            return all(v is None or np.max(np.abs(v[1])) < tol for v in (x, y))
        return x[0] == y[0] and close(x[1], y[1], tol)
    if k == 'c':
        return circ.same(x, y, tol)
    return close(x, y, tol)


def finite(v):
    k, x = v
    if k in 'kb':
        return x is None or bool(np.all(np.isfinite(x[1])))
    if k == 'c':
        return True
    return bool(np.all(np.isfinite(x)))


# ------------------------------------------------------------------ structure
def children(e):
    out = []
    if isinstance(e, Matrix):
        return [x for x in e.matrix.ravel() if isinstance(x, Expression)]
    for a in list(e.args) + list(e.kwargs.values()):
        if isinstance(a, Expression):
            out.append(a)
    return out


def subexprs(e, seen=None):
    """every distinct sub-expression (parents before children)"""
    seen = [] if seen is None else seen
    if not any(e is s for s in seen):
        seen.append(e)
        for c in children(e):
            subexprs(c, seen)
    return seen


def nodes(e):
    return 1 + sum(nodes(c) for c in children(e))


def classes(e):
    return sorted({type(s).__name__ for s in subexprs(e)})
