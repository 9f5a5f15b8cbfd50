"""Q05 circuit algebra"""
import numpy as np
from hypothesis import strategies as st

from .. import env  # noqa
from ..core import Discard, Property, ensure, shown
from ..gens import Ctx, chance, pick
from ..circ import CProg, csize, cdim, differs, model_of, same
from ..cgens import CCtx, circuit, cleaf, fixargs
from ..prog import heads
from ..sem import World

from qnet.algebra.core.circuit_algebra import (
    CIdentity, Circuit, CircuitZero, Concatenation, SLH, SeriesProduct, circuit_identity)

PROP = Property('Q05', '')
TRANSFORMS = ['rebuild', 'recreate', 'creduce', 'invinv', 'blocks', 'coarse', 'unit', 'toSLH', 'expand', 'simplify', 'subst0', 'cancel']


def transform(e, t, case):
    """(new circuit, does it have a meaning)"""
    if t == 'rebuild':
        return e.rebuild()
    if t == 'recreate':
        return type(e).create(*e.args, **e.kwargs)
    if t == 'creduce':
        return e.creduce()
    if t == 'invinv':
        return e.series_inverse().series_inverse()
    if t == 'blocks':
        bl = e.get_blocks()
        ensure(tuple(b.cdim for b in bl) == tuple(e.block_structure), 'blocks %s do not have the structure %s', bl, e.block_structure)
        return Concatenation.create(*bl)
    if t == 'coarse':
        bs = list(e.block_structure)
        if len(bs) < 2:
            return e
        k = case['k'] % (len(bs) - 1)
        bs = tuple(bs[:k] + [bs[k] + bs[k + 1]] + bs[k + 2:])
        bl = e.get_blocks(bs)
        ensure(tuple(b.cdim for b in bl) == bs, 'blocks %s do not have the requested structure %s', bl, bs)
        return Concatenation.create(*bl)
    if t == 'unit':
        n = e.cdim
        e = circuit_identity(n) << e << circuit_identity(n)
        return CircuitZero + e + CircuitZero
    if t == 'cancel':
        return e << (e.series_inverse() << e)
    if t == 'toSLH':
        return e.toSLH()
    if t == 'subst0':
        return e.substitute({})
    if t == 'expand':
        return e.expand() if isinstance(e, SLH) else e
    if t == 'simplify':
        return e.simplify_scalar() if isinstance(e, SLH) else e
    raise ValueError(t)


def check_circuit(case):
    w = World(case['w'])
    p = CProg(w)
    spec = case['e']
    ref = p.ref(spec)
    e = p.build(spec)
    ensure(isinstance(e, Circuit), 'construction gave %r, not a circuit', e)
    show = shown(e)
    ensure(e.cdim == ref.n, '%s has %s channels instead of %s', e, e.cdim, ref.n)
    m = model_of(e, w)
    ensure(same(m, ref), '%s denotes another model (%s)', e, differs(m, ref))
    for t in case['t']:
        ensure(sum(e.block_structure) == e.cdim, 'block structure %s of %s', e.block_structure, e)
        if t == 'toSLH' and 'csym' in heads(spec):
            continue
        if e is CircuitZero and t in ('toSLH', 'unit', 'blocks', 'coarse', 'cancel', 'invinv'):
            continue
        e = transform(e, t, case)
        ensure(isinstance(e, Circuit), '%s gave %r, not a circuit', t, e)
        ensure(e.cdim == ref.n, 'after %s, %s has %s channels instead of %s', t, e, e.cdim, ref.n)
        m = model_of(e, w)
        ensure(same(m, ref), 'after %s, %s denotes another model (%s)', t, e, differs(m, ref))
    return {'nt': csize(spec) >= 4, 'tags': sorted(h for h in heads(spec)), 'show': show}


def W0(draw):
    return [{'k': 'L', 'l': 'q', 'd': 2, 'b': ['g', 'e']}]


TS = st.lists(st.sampled_from(TRANSFORMS), max_size=3)


@st.composite
def symbolic_case(draw):
    ws = W0(draw)
    cc = CCtx(Ctx(ws), syms=True, comps=('W', 'Phase', 'BS') if chance(draw, 1, 3) else ())
    n = pick(draw, [1, 2, 2, 3, 3, 4])
    e = draw(circuit(cc, n, pick(draw, [2, 2, 3, 3, 4])))
    return {'w': ws, 'e': fixargs(e), 't': draw(TS), 'k': draw(st.integers(0, 3))}


@PROP.part('symbolic', symbolic_case, quick=9000)
def symbolic(case):
    return check_circuit(case)


@st.composite
def fb_case(draw):
    """feedback loops around series products of permutations, reducible and irreducible circuits"""
    ws = W0(draw)
    cc = CCtx(Ctx(ws), syms=True)
    n = pick(draw, [2, 3, 3, 4, 4, 5])
    xs = []
    for _ in range(draw(st.integers(2, 4))):
        k = pick(draw, ['leaf', 'cat', 'cat', 'perm', 'inv'])
        if k == 'leaf':
            xs.append(draw(cleaf(cc, n)))
        elif k == 'perm':
            xs.append(['perm', list(draw(st.permutations(list(range(n)))))])
        else:
            parts, left = [], n
            while left > 0:
                d = draw(st.integers(1, left))
                parts.append(draw(cleaf(cc, d)))
                left -= d
            c = ['cat', parts, draw(st.integers(0, 1))]
            xs.append(c if k == 'cat' else ['inv', c, 0])
    e = ['series', xs, draw(st.integers(0, 1))]
    for _ in range(draw(st.integers(1, max(1, n - 1)))):
        if n < 2:
            break
        e = ['fb', e, draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), draw(st.integers(0, 3))]
        n -= 1
    return {'w': ws, 'e': fixargs(e), 't': draw(TS), 'k': draw(st.integers(0, 3))}


@PROP.part('loops', fb_case, quick=8000)
def loops(case):
    return check_circuit(case)


@st.composite
def perm_case(draw):
    """permutations around reducible circuits"""
    ws = W0(draw)
    cc = CCtx(Ctx(ws), syms=True)
    n = pick(draw, [2, 3, 3, 4, 4, 5, 6])

    def red():
        parts, left = [], n
        while left > 0:
            d = draw(st.integers(1, min(left, 3)))
            parts.append(draw(cleaf(cc, d)))
            left -= d
        return ['cat', parts, draw(st.integers(0, 1))] if len(parts) > 1 else parts[0]
    xs = []
    for _ in range(draw(st.integers(2, 5))):
        xs.append(['perm', list(draw(st.permutations(list(range(n)))))] if chance(draw, 1, 2) else red())
    e = ['series', xs, draw(st.integers(0, 1))]
    if chance(draw, 1, 4):
        e = ['inv', e, draw(st.integers(0, 1))]
    if chance(draw, 1, 3) and n <= 4:
        e = ['cat', [e, ['series', [red(), ['perm', list(draw(st.permutations(list(range(n)))))]], 0]], draw(st.integers(0, 1))]
    return {'w': ws, 'e': fixargs(e), 't': draw(TS), 'k': draw(st.integers(0, 3))}


@PROP.part('permutations', perm_case, quick=7000)
def permutations(case):
    return check_circuit(case)


@st.composite
def slh_case(draw):
    ws = W0(draw)
    if chance(draw, 1, 4):
        ws.append({'k': 'L', 'l': 'VA', 'd': 2, 'b': ['g', 'e']})
    opS = chance(draw, 1, 4)
    cc = CCtx(Ctx(ws, trace=False, pinv=False, kets=False), syms=False, comps=('W', 'Phase', 'BS', 'VA', 'VB'),
              atoms=[js['l'] for js in ws], slh=True, opS=opS, coh=True, maxn=4)
    n = pick(draw, [1, 2, 2, 3])
    e = draw(circuit(cc, n, pick(draw, [1, 2, 2, 3])))
    t = draw(st.lists(st.sampled_from(TRANSFORMS), max_size=2)) + ['toSLH'] + draw(st.lists(st.sampled_from(['expand', 'simplify', 'invinv']),
                                                                                             max_size=2))
    return {'w': ws, 'e': fixargs(e), 't': t, 'k': draw(st.integers(0, 3)), 'opS': opS}


def cost(s):
    if not isinstance(s, (list, tuple)):
        return 0
    c = {'slh': 1, 'coh': 1, 'ctrl': 2, 'comp': 1, 'fb': 1}.get(s[0], 0) if s and isinstance(s[0], str) else 0
    return c + sum(cost(x) for x in s)


@PROP.part('slh', slh_case, quick=2400)
def slh(case):
    if cost(case['e']) + sum(2 for t in case['t'] if t in ('cancel', 'invinv')) > 6:
        raise Discard('the symbolic matrices get too large')
    from qnet.algebra.core.exceptions import AlgebraError
    try:
        return check_circuit(case)
    except AlgebraError as exc:
        if 'Inversion not implemented' in str(exc) and case['opS']:
            raise Discard('feedback of operator-valued scattering (documented as not implemented)')
        raise
