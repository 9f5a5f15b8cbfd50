"""Q07 connect"""
from itertools import combinations

import numpy as np
from hypothesis import strategies as st

from .. import env  # noqa
from ..core import Discard, Property, ensure, fail, shown
from ..gens import Ctx, chance, pick
from ..circ import CDIM, PORTS, CProg, Model, cdim, dag, differs, im_part, m_cat, model_of, same
from ..cgens import AMPS, CCtx, component, fixargs, slh_leaf
from ..prog import heads
from ..sem import World

from qnet.algebra.core.circuit_algebra import CIdentity, Circuit, CircuitSymbol, Concatenation, SLH, circuit_identity
from qnet.algebra.toolbox.circuit_manipulation import connect

PROP = Property('Q07', '')


def m_wire(m, outs, ins):
    """simultaneous elimination of the wires out_k -> in_k; remaining ports in ascending order"""
    n, D, q = m.n, m.H.shape[0], len(outs)
    ro = [i for i in range(n) if i not in outs]
    ri = [i for i in range(n) if i not in ins]

    def mat(rows, cols):
        return m.S[np.ix_(rows, cols)].transpose(0, 2, 1, 3).reshape(len(rows) * D, len(cols) * D)

    def col(rows):
        return m.L[rows].reshape(len(rows) * D, D)
    M = np.eye(q * D) - mat(outs, ins)
    for r in range(1, q + 1):
        for sub in combinations(range(q), r):
            idx = np.concatenate([np.arange(k * D, (k + 1) * D) for k in sub])
            x = M[np.ix_(idx, idx)]
            s = np.linalg.svd(x, compute_uv=False)
            if s[-1] < 2e-2:
                raise Discard('ill-posed feedback loop')
    Mi = np.linalg.inv(M)
    k = len(ro)
    S = mat(ro, ri) + mat(ro, ins) @ Mi @ mat(outs, ri)
    L = col(ro) + mat(ro, ins) @ Mi @ col(outs)
    allr = list(range(n))
    X = col(allr).conj().T @ mat(allr, ins) @ Mi @ col(outs)
    return Model(S.reshape(k, D, k, D).transpose(0, 2, 1, 3), L.reshape(k, D, D), m.H + (X - X.conj().T) / 2j)


@st.composite
def wiring(draw, symbolic=True, names=None):
    ws = [{'k': 'L', 'l': 'q', 'd': 2, 'b': ['g', 'e']}]
    atoms = ['q']
    if not symbolic and chance(draw, 1, 3):
        ws.append({'k': 'L', 'l': 'a2', 'd': 2, 'b': ['g', 'e']})
        atoms.append('a2')
    cc = CCtx(Ctx(ws, trace=False, pinv=False, kets=False), syms=symbolic)
    comps = []
    for _ in range(draw(st.integers(1, 4 if symbolic else 3))):
        if symbolic and chance(draw, 3, 5):
            comps.append(['csym', pick(draw, ['A', 'B', 'C', 'D1']), pick(draw, [1, 2, 2, 3]), []])
        elif chance(draw, 1, 10):
            comps.append(pick(draw, [['cid', 1], ['cid', 2], ['perm', [1, 0]], ['perm', [2, 0, 1]], ['czero']]))
        elif not symbolic and chance(draw, 1, 5):
            comps.append(draw(slh_leaf(cc.ctx, pick(draw, [1, 2]))))
        else:
            comps.append(draw(component(('Phase', 'BS', 'W', 'BS', 'VA', 'VB') if not symbolic else ('Phase', 'BS', 'BS', 'W'), atoms)))
    outs = [(c, k) for c, x in enumerate(comps) for k in range(cdim(x))]
    n = len(outs)
    q = draw(st.integers(0, max(0, min(n - 1, 4 if symbolic else 3))))
    o = list(draw(st.permutations(outs)))[:q]
    i = list(draw(st.permutations(outs)))[:q]
    conns = []
    for a, b in zip(o, i):
        conns.append([[a[0], a[1], draw(st.integers(0, 1)), draw(st.integers(0, 1))],
                      [b[0], b[1], draw(st.integers(0, 1)), draw(st.integers(0, 1))]])
    return ws, comps, conns


def references(case, objs, outside=False):
    """connection list with objects/indices and port names/numbers as requested (object only where unambiguous)"""
    counts = [sum(bool(o == x) for x in objs) for o in objs]
    res = []
    for side in case['conns']:
        pair = []
        for (c, k, byobj, byname), which in zip(side, (1, 0)):
            spec = case['comps'][c]
            port = k
            if byname and spec[0] == 'comp':
                port = PORTS[spec[1]][which][k]
            ref = objs[c] if byobj and counts[c] == 1 else c
            pair.append((ref, port))
        res.append(tuple(pair))
    return res


def flat(case):
    offs = np.cumsum([0] + [cdim(x) for x in case['comps']])
    outs = [int(offs[a[0]] + a[1]) for a, b in case['conns']]
    ins = [int(offs[b[0]] + b[1]) for a, b in case['conns']]
    return outs, ins


def reference(case, w, p):
    m = p.ref(['cat', case['comps'], 0])
    outs, ins = flat(case)
    return m_wire(m, outs, ins) if outs else m


@st.composite
def sym_case(draw):
    ws, comps, conns = draw(wiring(True))
    return fixargs({'w': ws, 'comps': comps, 'conns': conns, 'tuple': draw(st.integers(0, 1)), 'slh': draw(st.integers(0, 2))})


def run(case, **kw):
    w = World(case['w'])
    p = CProg(w)
    ref = reference(case, w, p)
    objs = [p.build(x) for x in case['comps']]
    conns = references(case, objs)
    if case['tuple']:
        objs, conns = tuple(objs), tuple(conns)
    e = connect(objs, conns, **kw)
    ensure(isinstance(e, Circuit), 'connect gave %r', e)
    if kw.get('force_SLH'):
        ensure(isinstance(e, SLH), 'connect(force_SLH=True) gave a %s', type(e).__name__)
    ensure(e.cdim == ref.n, '%s has %s channels instead of %s', e, e.cdim, ref.n)
    m = model_of(e, w)
    ensure(same(m, ref), 'connect(%s, %s) = %s is another network (%s)', list(objs), conns, e, differs(m, ref))
    return e, ref, w, p, objs


def tags(case):
    names = any(x[3] for c in case['conns'] for x in c)
    return sorted(heads(case['comps'])) + ['wires:%d' % len(case['conns'])] + (['names'] if names else [])


@PROP.part('symbolic', sym_case, quick=6000, rule='at least two connections')
def symbolic(case):
    e, ref, w, p, objs = run(case)
    if objs and len(case['conns']):
        # the same wiring by explicit feedback, the wires closed one after the other in the given order
        c = Concatenation.create(*objs)
        outs, ins = flat(case)
        outs, ins = list(outs), list(ins)
        while outs:
            o, i = outs.pop(0), ins.pop(0)
            c = c.feedback(out_port=o, in_port=i)
            outs = [x - (x > o) for x in outs]
            ins = [x - (x > i) for x in ins]
        m = model_of(c, w)
        ensure(same(m, ref), 'explicit feedback construction %s gives another network (%s)', c, differs(m, ref))
    return {'nt': len(case['conns']) >= 2, 'tags': tags(case)}


@st.composite
def slh_case(draw):
    ws, comps, conns = draw(wiring(False))
    return fixargs({'w': ws, 'comps': comps, 'conns': conns, 'tuple': draw(st.integers(0, 1)),
                    'slh': draw(st.integers(0, 2)), 'es': draw(st.booleans())})


@PROP.part('slh', slh_case, quick=1600, rule='at least one connection')
def slh(case):
    kw = {}
    if case['slh']:
        kw['force_SLH'] = True
        if case['slh'] == 2:
            kw['expand_simplify'] = case['es']
    if not any(x[0] not in ('cid', 'czero', 'perm') for x in case['comps']) or sum(x[0] == 'czero' for x in case['comps']):
        raise Discard('empty circuit')
    e, ref, w, p, objs = run(case, **kw)
    s = e.toSLH()
    ensure(same(model_of(s, w), ref), 'toSLH of %s is another network (%s)', e, differs(model_of(s, w), ref))
    return {'nt': len(case['conns']) >= 1, 'tags': tags(case)}


BAD = ['port+', 'port-', 'name', 'index+', 'index-', 'foreign', 'dup_out', 'dup_in', 'ambiguous', 'name_sym', 'swap_name']


@st.composite
def bad_case(draw):
    ws, comps, conns = draw(wiring(True))
    return fixargs({'w': ws, 'comps': comps, 'conns': conns, 'tuple': 0, 'bad': pick(draw, BAD), 'at': draw(st.integers(0, 9)),
                    'side': draw(st.integers(0, 1))})


@PROP.part('invalid', bad_case, quick=3000, rule='a wiring list with exactly one invalid entry')
def invalid(case):
    w = World(case['w'])
    p = CProg(w)
    objs = [p.build(x) for x in case['comps']]
    conns = [list(map(list, c)) for c in references(case, objs)]
    if not conns:
        raise Discard('no connection')
    reference(case, w, p)     # the valid part is well-posed
    k = case['at'] % len(conns)
    side = case['side']
    ent = conns[k][side]
    orig = case['conns'][k][side]
    spec = case['comps'][orig[0]]
    b = case['bad']
    if b == 'port+':
        ent[1] = cdim(spec) + case['at'] % 2
    elif b == 'port-':
        ent[1] = -1 - case['at'] % 3
    elif b == 'name':
        if spec[0] != 'comp':
            raise Discard('no named ports')
        ent[1] = 'nosuch'
    elif b == 'swap_name':
        if spec[0] != 'comp':
            raise Discard('no named ports')
        ent[1] = PORTS[spec[1]][side][orig[1]]      # input name for an output and vice versa
        if ent[1] in PORTS[spec[1]][1 - side]:
            raise Discard('same name')
    elif b == 'name_sym':
        if spec[0] == 'comp':
            raise Discard('has named ports')
        ent[1] = 'in'
    elif b == 'index+':
        ent[0] = len(objs) + case['at'] % 2
    elif b == 'index-':
        ent[0] = -1 - case['at'] % 2
    elif b == 'foreign':
        ent[0] = CircuitSymbol('foreign', cdim=cdim(spec))
    elif b in ('dup_out', 'dup_in'):
        if len(conns) < 2:
            raise Discard('needs two connections')
        s = 0 if b == 'dup_out' else 1
        j = (k + 1) % len(conns)
        conns[k][s] = list(conns[j][s])
    elif b == 'ambiguous':
        c = orig[0]
        if sum(o == objs[c] for o in objs) < 2:
            raise Discard('no duplicate component')
        ent[0] = objs[c]
    try:
        e = connect(objs, [tuple(map(tuple, c)) for c in conns])
    except ValueError:
        return {'nt': True, 'tags': [b]}
    except Exception as exc:
        fail('connect(%s, %s) with an invalid entry (%s) raised %r instead of ValueError', objs, conns, b, exc)
    fail('connect(%s, %s) accepted an invalid entry (%s) and gave %s', objs, conns, b, e)
