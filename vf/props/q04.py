"""Q04 super-operators act as composed linear maps"""
import numpy as np
from hypothesis import strategies as st

from .. import env  # noqa
from ..core import Discard, Property, ensure, shown
from ..gens import Ctx, chance, fixkinds, op, op_leaf, pick, scalar, sop, world_js
from ..prog import Prog, degree, heads, size, terms
from ..sem import World, close, low_block, low_block_super, op as sem_op, superop as sem_sop

from qnet.algebra.core.operator_algebra import Operator
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.super_operator_algebra import (
    SuperOperator, SuperOperatorTimesOperator, anti_commutator, commutator, lindblad, liouvillian, liouvillian_normal_form)

PROP = Property('Q04', '')
TRANSFORMS = ['expand', 'rebuild', 'doit', 'simplify', 'recreate', 'dagdag', 'dag']


def transform(e, t):
    if t == 'simplify':
        return e.simplify_scalar()
    if t == 'recreate':
        return type(e).create(*e.args, **e.kwargs)
    if t == 'dagdag':
        return e.dag().dag()
    if t == 'dag':
        return e.dag()
    return getattr(e, t)()


def get_world(case, spec):
    if terms(spec) > 150:
        raise Discard('more than 150 terms when expanded')
    w = World(case['w'], base=2, extra=degree(spec))
    if w.dim(w.all) > 14:
        raise Discard('too large')
    return w


def check_sop(case):
    from ..sem import super_adjoint
    spec = case['e']
    w = get_world(case, spec)
    p = Prog(w)
    ref = p.ref_sop(spec)
    low = lambda m: low_block_super(m, w)  # noqa
    e = p.build_sop(spec)
    ensure(isinstance(e, SuperOperator), 'construction gave %r, not a super-operator', e)
    show = shown(e)
    ensure(close(low(sem_sop(e, w)), low(ref)), 'constructed super-operator %s denotes a different map', e)
    for t in case['t']:
        e = transform(e, t)
        if t == 'dag':
            ref = super_adjoint(ref)
        ensure(isinstance(e, SuperOperator), '%s gave %r, not a super-operator', t, e)
        ensure(close(low(sem_sop(e, w)), low(ref)), 'after %s, %s denotes a different map', t, e)
    return {'nt': size(spec) >= 3, 'tags': sorted(heads(spec)), 'show': show}


def check_apply(case):
    spec = case['e']
    w = get_world(case, spec)
    p = Prog(w)
    ref = low_block(p.ref_op(spec), w)
    e = p.build_op(spec)
    ensure(isinstance(e, Operator), 'application gave %r, not an operator', e)
    show = shown(e)
    ensure(close(low_block(sem_op(e, w), w), ref), 'the image %s is wrong', e)
    for t in case['t']:
        if t == 'dag':
            e, ref = e.dag(), ref.conj().T
        else:
            e = transform(e, t)
        ensure(isinstance(e, Operator), '%s gave %r, not an operator', t, e)
        ensure(close(low_block(sem_op(e, w), w), ref), 'after %s, the image %s is wrong', t, e)
    return {'nt': size(spec) >= 4, 'tags': sorted(heads(spec)), 'show': show}


def sworld(draw, fock):
    if fock:
        ws = draw(world_js(nmax=1, kinds=('F', ), maxD=4, maxdim=2))
        if chance(draw, 1, 2):
            ws.append(draw(world_js(nmax=1, kinds=('L', 'S'), maxdim=2, labels=['zz', '7']))[0])
        return ws, Ctx(ws, trace=False, pinv=False, base=2)
    ws = draw(world_js(nmax=2, kinds=('L', 'S', 'L'), maxD=6))
    return ws, Ctx(ws)


@st.composite
def sop_case(draw, fock=False):
    ws, ctx = sworld(draw, fock)
    e = draw(sop(ctx, pick(draw, [1, 2, 2, 3])))
    return {'w': ws, 'e': fixkinds(e), 't': draw(st.lists(st.sampled_from(TRANSFORMS), max_size=3))}


@PROP.part('maps', sop_case, quick=6000)
def maps(case):
    return check_sop(case)


@PROP.part('maps_fock', lambda: sop_case(True), quick=3000)
def maps_fock(case):
    if degree(case['e']) > 5:
        raise Discard('degree too high')
    return check_sop(case)


@st.composite
def apply_case(draw, fock=False):
    ws, ctx = sworld(draw, fock)
    x = draw(op(ctx, pick(draw, [0, 1, 1, 2])))
    for _ in range(pick(draw, [1, 1, 2])):
        x = ['sopop', draw(sop(ctx, pick(draw, [1, 2, 2]))), x]
        if chance(draw, 1, 4):
            x = ['smul', draw(scalar(ctx, 1)), x]
    return {'w': ws, 'e': fixkinds(x),
            't': draw(st.lists(st.sampled_from(['expand', 'rebuild', 'doit', 'simplify', 'recreate', 'dag']), max_size=3))}


@PROP.part('apply', apply_case, quick=6000)
def apply(case):
    return check_apply(case)


@PROP.part('apply_fock', lambda: apply_case(True), quick=3000)
def apply_fock(case):
    if degree(case['e']) > 5:
        raise Discard('degree too high')
    return check_apply(case)


# products of local left/right multiplications: the ordering rules
@st.composite
def chain_case(draw):
    ws, ctx = sworld(draw, False)
    n = draw(st.integers(2, 5))
    fs = []
    for _ in range(n):
        t = pick(draw, ['pre', 'post', 'pre', 'post', 'ssym', 'scomm', 'sid'])
        if t == 'ssym':
            f = ['ssym', pick(draw, ['S', 'T']), [draw(st.integers(0, len(ws) - 1))]]
        elif t == 'sid':
            f = ['sid']
        else:
            f = [t, draw(op_leaf(ctx))]
        if chance(draw, 1, 6):
            f = ['ssmul', draw(scalar(ctx, 0)), f]
        if chance(draw, 1, 6):
            f = ['sadj', f]
        fs.append(f)
    e = ['stimes', fs, draw(st.integers(0, 1))]
    if chance(draw, 1, 2):
        return {'w': ws, 'e': fixkinds(['sopop', e, draw(op_leaf(ctx))]), 't': ['expand'] if chance(draw, 1, 2) else []}
    return {'w': ws, 'e': fixkinds(e), 't': draw(st.lists(st.sampled_from(TRANSFORMS), max_size=2))}


@PROP.part('chain', chain_case, quick=5000)
def chain(case):
    return check_apply(case) if case['e'][0] == 'sopop' else check_sop(case)


# ------------------------------------------------------------------ the constructors with two arguments, matrices of operators
@st.composite
def ctor_case(draw):
    ws, ctx = sworld(draw, False)
    return {'w': ws, 'a': fixkinds(draw(op(ctx, 1))), 'b': fixkinds(draw(op(ctx, 1))),
            'ls': fixkinds(draw(st.lists(op(ctx, 1), max_size=3))), 'form': draw(st.integers(0, 2))}


@PROP.part('constructors', ctor_case, quick=2500)
def constructors(case):
    w = World(case['w'])
    p = Prog(w)
    ma, mb = p.ref_op(case['a']), p.ref_op(case['b'])
    mls = [p.ref_op(x) for x in case['ls']]
    a, b = p.build_op(case['a']), p.build_op(case['b'])
    ensure(close(sem_op(commutator(a, b), w), ma @ mb - mb @ ma), 'commutator(%s, %s)', a, b)
    ensure(close(sem_op(anti_commutator(a, b), w), ma @ mb + mb @ ma), 'anti_commutator(%s, %s)', a, b)
    ensure(close(sem_op(commutator(a) * b, w), ma @ mb - mb @ ma), 'commutator(%s) * %s', a, b)
    ensure(close(sem_op(anti_commutator(a) * b, w), ma @ mb + mb @ ma), 'anti_commutator(%s) * %s', a, b)
    mad = ma.conj().T
    ensure(close(sem_op(lindblad(a) * b, w), ma @ mb @ mad - 0.5 * (mad @ ma @ mb + mb @ mad @ ma)), 'lindblad(%s) * %s', a, b)
    ls = [p.build_op(x) for x in case['ls']]
    if case['form'] == 1 and ls:
        arg = Matrix([ls])
    elif case['form'] == 2:
        arg = None if not ls else tuple(ls)
    else:
        arg = ls
    want = -1j * (ma @ mb - mb @ ma)
    for m in mls:
        md = m.conj().T
        want = want + m @ mb @ md - 0.5 * (md @ m @ mb + mb @ md @ m)
    L = liouvillian(a, arg)
    ensure(isinstance(L, SuperOperator), 'liouvillian gave %r', L)
    ensure(close(sem_op(L * b, w), want), 'liouvillian(%s, %s) * %s', a, ls, b)
    return {'nt': size(case['a']) > 1, 'show': '%s, %s' % (shown(a), shown(b))}


# ------------------------------------------------------------------ normal form
COEFF = [['i', 1, 's'], ['i', 2, 's'], ['q', 1, 2, 's'], ['z', 1, 1, 's'], ['z', 0, 1, 's'], ['f', 0.5, 'p'], ['i', -1, 's']]
SCOEFF = [['sym', 'z', 'p', 's'], ['sym', 'x', 'c', 's'], ['sym', 'y', 'r', 's'], ['*', [['sym', 'z', 'p', 's'], ['i', 2, 's']]]]


@st.composite
def nf_case(draw):
    fock = chance(draw, 1, 2)
    if fock:
        ws = [{'k': 'F', 'l': pick(draw, ['1', 'c'])}]
        if chance(draw, 1, 3):
            ws.append({'k': 'L', 'l': 'q', 'd': 2, 'b': ['g', 'e']})
    else:
        ws = draw(world_js(nmax=2, kinds=('L', ), maxD=4, maxdim=2))
    ctx = Ctx(ws, trace=False, pinv=False, kets=False, bigsyms=False, base=2)
    nb = draw(st.integers(1, 3))
    basis = []
    for _ in range(nb):
        b = draw(op_leaf(ctx))
        if b[0] in ('id', 'zero'):
            b = ['osym', 'A', [0]]
        if b not in basis:
            basis.append(b)
    symbolic = chance(draw, 1, 3)
    cs = COEFF + (SCOEFF if symbolic else [])
    ls = []
    for _ in range(draw(st.integers(0, 3))):
        terms = [['smul', pick(draw, cs), pick(draw, basis)] for _ in range(pick(draw, [1, 1, 2] if not symbolic else [1, 1, 1]))]
        if chance(draw, 1, 3):
            terms.append(['smul', pick(draw, cs), ['id']])
        ls.append(['oadd', terms, 0] if len(terms) > 1 else terms[0])
    h = draw(op(ctx, 1))
    H = ['oadd', [h, ['adj', h, 0]], 0]
    return {'w': ws, 'h': fixkinds(H), 'ls': fixkinds(ls)}


@PROP.part('normal_form', nf_case, quick=1500)
def normal_form(case):
    spec = ['liou', case['h'], case['ls']]
    if degree(spec) > 5:
        raise Discard('degree too high')
    w = get_world(case, spec)
    p = Prog(w)
    ref = low_block_super(p.ref_sop(spec), w)
    L = p.build_sop(spec)
    try:
        H, Ls = liouvillian_normal_form(L)
    except Exception as exc:
        from qnet.algebra.core.exceptions import BadLiouvillianError, CannotSymbolicallyDiagonalize
        if isinstance(exc, CannotSymbolicallyDiagonalize):
            raise Discard('documented: cannot be diagonalised symbolically')
        if isinstance(exc, BadLiouvillianError) and not case['ls']:
            raise Discard('a single term is not a Liouvillian')
        raise
    got = liouvillian(H, Ls)
    ensure(close(low_block_super(sem_sop(got, w), w), ref, 1e-6), 'normal form (%s, %s) generates another Liouvillian', H, Ls)
    h = low_block(sem_op(H, w), w)
    ensure(close(h, h.conj().T, 1e-6), 'H = %s is not Hermitian', H)
    if not ('sym' in heads(case['ls'])):
        ensure(len(Ls) <= len(case['ls']), '%s collapse operators instead of %s', len(Ls), len(case['ls']))
    return {'nt': len(case['ls']) > 0, 'tags': ['n%d' % len(case['ls'])], 'show': '%s; %s' % (shown(H), [shown(x) for x in Ls])}
