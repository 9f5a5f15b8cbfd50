"""Q06 SLH models: physicality, drives, equations of motion, linearization, adiabatic elimination"""
import numpy as np
import sympy
from hypothesis import strategies as st

from .. import env  # noqa
from ..core import Discard, Property, ensure, shown
from ..gens import Ctx, chance, fixkinds, op, op_leaf, pick
from ..circ import CProg, Model, cdim, csize, dag, differs, im_part, m_series, model_of, same, scalar_model, slh_model
from ..cgens import AMPS, ANGLES, CCtx, POS, REALS, circuit, component, fixargs, slh_leaf, unitary
from ..prog import Prog, heads
from .. import sem
from ..sem import World, close

from qnet.algebra.core.circuit_algebra import (
    CIdentity, SLH, getABCD, move_drive_to_H, prepare_adiabatic_limit, try_adiabatic_elimination)
from qnet.algebra.core.exceptions import AlgebraError, WrongCDimError
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.operator_algebra import Operator, OperatorSymbol
from qnet.algebra.core.super_operator_algebra import SuperOperator
from .q05 import cost

PROP = Property('Q06', '')


def unitary_dev(m):
    """|S^dagger S - 1|, |S S^dagger - 1| for an operator-valued scattering matrix"""
    n, D = m.n, m.H.shape[0]
    X = m.S.transpose(0, 2, 1, 3).reshape(n * D, n * D)
    e = np.eye(n * D)
    return max(np.abs(X.conj().T @ X - e).max(), np.abs(X @ X.conj().T - e).max()) if n else 0.0


def physical(m, what):
    dev = unitary_dev(m)
    ensure(dev < 1e-7, '%s: the scattering matrix is not unitary (deviation %.2g)', what, dev)
    h = np.abs(m.H - m.H.conj().T).max()
    ensure(h < 1e-7 * max(1, np.abs(m.H).max()), '%s: the Hamiltonian is not Hermitian (deviation %.2g)', what, h)


def slh_ctx(draw, atoms=True, nspaces=1, opS=False, coh=True):
    ws = [{'k': 'L', 'l': 'q', 'd': 2, 'b': ['g', 'e']}]
    if nspaces > 1 and chance(draw, 1, 2):
        ws.append({'k': 'L', 'l': pick(draw, ['VA', 'a1', 'r']), 'd': 2, 'b': ['g', 'e']})
    cc = CCtx(Ctx(ws, trace=False, pinv=False, kets=False), syms=False, comps=('W', 'Phase', 'BS', 'VA', 'VB'),
              atoms=[js['l'] for js in ws] if atoms else (), slh=True, opS=opS, coh=coh, maxn=4)
    return ws, cc


# ------------------------------------------------------------------------------------------------ networks

@st.composite
def network_case(draw):
    opS = chance(draw, 1, 6)
    ws, cc = slh_ctx(draw, nspaces=2, opS=opS)
    n = pick(draw, [1, 2, 2, 3])
    e = draw(circuit(cc, n, pick(draw, [0, 1, 2, 2])))
    return {'w': ws, 'e': fixargs(e), 't': draw(st.lists(st.sampled_from(['expand', 'simplify']), max_size=2)), 'opS': opS}


@PROP.part('network', network_case, quick=1600, rule='a network with at least two elements, or one non-trivial component')
def network(case):
    if cost(case['e']) > 5:
        raise Discard('the symbolic matrices get too large')
    w = World(case['w'])
    p = CProg(w)
    ref = p.ref(case['e'])
    try:
        e = p.build(case['e'])
        s = e.toSLH()
    except AlgebraError as exc:
        if 'Inversion not implemented' in str(exc) and case['opS']:
            raise Discard('feedback of operator-valued scattering')
        raise
    ensure(isinstance(s, SLH), 'toSLH gave %r', s)
    for t in [None] + case['t']:
        if t:
            s = s.expand() if t == 'expand' else s.simplify_scalar()
        ensure(s.cdim == ref.n == len(s.Ls), 'channel number after %s', t)
        m = slh_model(s, w)
        physical(m, 'after %s, %s' % (t, shown(s)))
        ensure(same(m, ref), 'after %s, the SLH model of %s is not the documented one (%s)', t, e, differs(m, ref))
    return {'nt': csize(case['e']) >= 2, 'tags': sorted(heads(case['e']))}


# ------------------------------------------------------------------------------------------------ drives

@st.composite
def drive_case(draw):
    ws, cc = slh_ctx(draw, nspaces=2)
    n = pick(draw, [1, 2, 2, 3])
    spec = draw(slh_leaf(cc.ctx, n))
    if chance(draw, 1, 3):
        c = draw(component(('VA', 'VB', 'BS', 'Phase'), cc.atoms))
        spec = c
        n = cdim(c)
    Ls = []
    alphas = []
    for _ in range(n):
        al = None if chance(draw, 1, 4) else pick(draw, AMPS + [['i', 0, 'p']])
        alphas.append(al)
    if spec[0] == 'slh':
        for al in alphas:
            # coupling operators without a hidden multiple of the identity
            i = draw(st.integers(0, len(ws) - 1))
            x = pick(draw, [['sigma', i, 0, 1, 1], ['sigma', i, 1, 0, 0], ['osym', 'A', [i]], ['zero'],
                            ['smul', pick(draw, AMPS), ['sigma', i, 0, 1, 1]]])
            if al is not None:
                x = ['oadd', [x, ['smul', al, ['id']]], 0]
            Ls.append(x)
        spec = [spec[0], spec[1], Ls, spec[3]]
    amps = [pick(draw, AMPS + [['i', 0, 'p']]) for _ in range(n)]
    which = None
    if chance(draw, 1, 2):
        which = sorted(draw(st.sets(st.integers(0, n - 1), min_size=0, max_size=n)))
    return fixargs({'w': ws, 'e': spec, 'alphas': alphas if spec[0] == 'slh' else [None] * n, 'amps': amps,
                    'drive': chance(draw, 1, 2), 'which': which, 'es': draw(st.booleans()), 'wf': draw(st.integers(0, 1)),
                    'bad': draw(st.integers(-1, 2))})


@PROP.part('drive', drive_case, quick=1600, rule='at least one non-zero coherent amplitude')
def drive(case):
    w = World(case['w'])
    p = CProg(w)
    D = p.D
    ref = p.ref(case['e'])
    c = p.build(case['e'])
    n = ref.n
    amps = [p.p.ref_scalar(a) for a in case['amps']]
    alpha = np.array([0 if a is None else p.p.ref_scalar(a) for a in case['alphas']], complex)
    objs = [p.p.build_scalar(a) for a in case['amps']]
    if case['bad'] in (-1, 1):
        wrong = objs[:-1] if case['bad'] < 0 else objs + [1]
        try:
            c.coherent_input(*wrong)
        except WrongCDimError:
            pass
        else:
            ensure(False, 'coherent_input accepted %d amplitudes for %d channels', len(wrong), n)
    m = ref
    s = c.toSLH()
    if case['drive']:
        d = c.coherent_input(*objs)
        m = m_series(ref, scalar_model(np.eye(n), amps, D))
        ensure(same(model_of(d, w), m), 'coherent_input(%s) of %s is not the displaced model', objs, c)
        # displaced model: S a is added to the coupling
        ensure(close(m.L, ref.L + np.einsum('ijab,j->iab', ref.S, np.array(amps, complex))), 'reference')
        s = d.toSLH()
        # operator-valued S: only the scalar part of S is an inhomogeneity, skip those
        Ssc = np.einsum('ijaa->ij', ref.S) / D
        alpha = alpha + Ssc @ np.array(amps, complex)
    which = case['which']
    if which is not None and case['wf']:
        which = tuple(which)
    t = move_drive_to_H(s, which, expand_simplify=case['es']) if which is not None else move_drive_to_H(s, expand_simplify=case['es'])
    sel = range(n) if which is None else which
    a = np.array([alpha[j] if j in sel else 0 for j in range(n)], complex)
    got = slh_model(t, w)
    ensure(close(got.S, m.S, 1e-6), 'move_drive_to_H changed the scattering matrix')
    ensure(close(got.L, m.L - a[:, None, None] * np.eye(D), 1e-6),
           'move_drive_to_H(which=%s): coupling vector is not L - alpha, alpha = %s', which, a)
    H = m.H + sum(((a[j] * dag(m.L[j]) - np.conj(a[j]) * m.L[j]) / 2j for j in range(n)), np.zeros((D, D)))
    ensure(close(got.H, H, 1e-6), 'move_drive_to_H(which=%s): wrong Hamiltonian', which)
    ensure(close(lindblad_gen(got), lindblad_gen(m), 1e-6), 'move_drive_to_H(which=%s) changed the master equation', which)
    physical(got, 'after move_drive_to_H')
    return {'nt': bool(np.any(np.abs(alpha) > 1e-9)), 'tags': sorted(heads(case['e'])) + ['which:%s' % (
        'None' if which is None else 'all' if len(which) == n else 'none' if not which else 'some')]}


def lindblad_gen(m):
    """Liouville matrix (row-major) of rho -> -i[H, rho] + sum L rho L^+ - {L^+ L, rho}/2"""
    D = m.H.shape[0]
    e = np.eye(D)
    G = -1j * (np.kron(m.H, e) - np.kron(e, m.H.T))
    for L in m.L:
        LdL = dag(L) @ L
        G = G + np.kron(L, L.conj()) - (np.kron(LdL, e) + np.kron(e, LdL.T)) / 2
    return G


# ------------------------------------------------------------------------------------------------ equations of motion

@st.composite
def eom_case(draw):
    ws, cc = slh_ctx(draw, nspaces=2)
    opS = chance(draw, 1, 5)
    n = pick(draw, [1, 1, 2, 2, 3])
    e = draw(slh_leaf(cc.ctx, n, opS))
    if chance(draw, 1, 5):
        e = draw(component(('VA', 'VB', 'BS', 'W'), cc.atoms))
        n = cdim(e)
    noise = None
    if chance(draw, 1, 2):
        ws = ws + [{'k': 'L', 'l': 'ext_%d' % i, 'd': 2} for i in range(min(n, 2))]
        noise = [min(len(ws) - 1, len(ws) - min(n, 2) + i) for i in range(n)]
    X = draw(op(cc.ctx, pick(draw, [0, 0, 1])))
    return fixargs({'w': ws, 'e': e, 'X': X, 'noise': noise, 'ndag': chance(draw, 1, 4), 'default': chance(draw, 1, 5),
                    'es': draw(st.booleans()), 'row': draw(st.integers(0, 1))})


@PROP.part('eom', eom_case, quick=1600, rule='the model has a non-zero coupling or Hamiltonian')
def eom(case):
    w = World(case['w'])
    p = CProg(w)
    m = p.ref(case['e'])
    s = p.build(case['e']).toSLH()
    D, n = p.D, m.n
    G = lindblad_gen(m)
    # Liouvillian
    L = s.symbolic_liouvillian()
    ensure(isinstance(L, SuperOperator), 'symbolic_liouvillian gave %r', L)
    ensure(close(sem.superop(L, w), G, 1e-6), 'symbolic Liouvillian is not the Lindblad generator: %s', L)
    # master equation
    if case['default']:
        if s.space.dimension == 1:
            raise Discard('no degree of freedom')
        rho = OperatorSymbol('rho', hs=s.space)
        r = s.symbolic_master_equation()
        rr = sem.op_or_scalar_matrix(rho, w)
    else:
        rr = p.p.ref_op(case['X'])
        r = s.symbolic_master_equation(p.p.build_op(case['X']))
    ensure(close(sem.op_or_scalar_matrix(r, w), (G @ rr.reshape(-1)).reshape(D, D), 1e-6), 'master equation is wrong: %s', r)
    # Heisenberg equation
    kw = {} if case['es'] else {'expand_simplify': False}
    if case['default']:
        X = OperatorSymbol('X', hs=s.space)
        Xn = sem.op_or_scalar_matrix(X, w)
        args = {}
    else:
        X = p.p.build_op(case['X'])
        Xn = rr
        args = {'X': X}
    ref = heis(m, Xn)
    tag = 'mean'
    if case['noise'] is not None:
        tag = 'noise'
        bs = [['osym', 'b', [i]] for i in case['noise']]
        if case['ndag']:
            bs = [['adj', b, 0] for b in bs]
        obj = [[p.p.build_op(b)] for b in bs]
        args['noises'] = obj if case['row'] else Matrix(obj)
        B = np.stack([p.p.ref_op(b) for b in bs])
        ref = ref + noise_terms(m, Xn, B)
    dX = s.symbolic_heisenberg_eom(**args, **kw)
    ensure(isinstance(dX, Operator), 'symbolic_heisenberg_eom gave %r', dX)
    ensure(close(sem.op_or_scalar_matrix(dX, w), ref, 1e-6), 'Heisenberg equation of %s (%s) is wrong: %s', X, tag, dX)
    return {'nt': bool(np.abs(m.L).max() > 1e-9 or np.abs(m.H).max() > 1e-9),
            'tags': sorted(heads(case['e'])) + [tag, 'default' if case['default'] else 'given']}


def heis(m, X):
    r = 1j * (m.H @ X - X @ m.H)
    for L in m.L:
        LdL = dag(L) @ L
        r = r + dag(L) @ X @ L - (LdL @ X + X @ LdL) / 2
    return r


def noise_terms(m, X, B):
    """dA^+ S^+ [X, L] + [L^+, X] S dA + Tr((S^+ X S - X) dLambda^T) with dLambda_jk = b_j^+ b_k; all factors as operators"""
    n = m.n
    r = 0
    for j in range(n):
        for k in range(n):
            r = r + dag(B[j]) @ dag(m.S[k, j]) @ (X @ m.L[k] - m.L[k] @ X)
            r = r + (dag(m.L[k]) @ X - X @ dag(m.L[k])) @ m.S[k, j] @ B[j]
            M = sum(dag(m.S[i, j]) @ X @ m.S[i, k] for i in range(n)) - (X if j == k else 0)
            r = r + M @ dag(B[j]) @ B[k]
    return r


# ------------------------------------------------------------------------------------------------ linearization

@st.composite
def linear_case(draw):
    k = pick(draw, [1, 1, 2])
    ws = [{'k': 'F', 'l': lb} for lb in ['a', 'b2'][:k]]
    n = pick(draw, [1, 2, 2])
    active = chance(draw, 1, 2)
    u = draw(unitary(n, 2))

    def lin():
        ts = []
        for i in range(k):
            if chance(draw, 3, 4):
                ts.append(['smul', pick(draw, AMPS), [pick(draw, ['destroy', 'create']) if active else 'destroy', i]])
        if chance(draw, 1, 3):
            ts.append(['smul', pick(draw, AMPS), ['id']])
        return ['oadd', ts, 0] if len(ts) > 1 else ts[0] if ts else ['zero']
    Ls = [lin() for _ in range(n)]
    hs = []
    for i in range(k):
        if chance(draw, 1, 2):
            hs.append(['smul', pick(draw, REALS), ['omul', [['create', i], ['destroy', i]], 0]])
        if chance(draw, 1, 3):
            a = pick(draw, AMPS)
            hs += [['smul', a, ['create', i]], ['smul', ['conj', a], ['destroy', i]]]
        if active and chance(draw, 1, 2):
            a = pick(draw, AMPS)
            j = draw(st.integers(0, k - 1))
            hs += [['smul', a, ['omul', [['create', i], ['create', j]], 0]],
                   ['smul', ['conj', a], ['omul', [['destroy', j], ['destroy', i]], 0]]]
    if k == 2 and chance(draw, 1, 2):
        a = pick(draw, AMPS)
        hs += [['smul', a, ['omul', [['create', 0], ['destroy', 1]], 0]], ['smul', ['conj', a], ['omul', [['create', 1], ['destroy', 0]], 0]]]
    H = ['oadd', hs, 0] if len(hs) > 1 else hs[0] if hs else ['zero']
    a0 = {str(i): pick(draw, AMPS) for i in range(k) if chance(draw, 1, 3)}
    return fixargs({'w': ws, 'e': ['slh', u, Ls, H], 'a0': a0, 'du': active or chance(draw, 1, 2), 'none': chance(draw, 1, 2)})


def lin_coeffs(M, w, k):
    """M = sum_j x_j a_j + y_j a_j^+ + c 1 on the compared block"""
    basis = []
    for kind in 'xy':
        for lb in w.all:
            a = w.embed(sem.ladder(w.by_label[lb].N).astype(complex), (lb, ), w.all)
            basis.append(a if kind == 'x' else a.conj().T)
    basis.append(np.eye(w.dim(w.all)))
    A = np.stack([sem.low_block(b, w).reshape(-1) for b in basis], 1)
    y = sem.low_block(M, w).reshape(-1)
    c, *_ = np.linalg.lstsq(A, y, rcond=None)
    if not close(A @ c, y, 1e-7):
        raise Discard('not linear')
    return c[:k], c[k:2 * k], c[2 * k]


@PROP.part('linear', linear_case, quick=170, rule='at least one mode couples to a channel')
def linear(case):
    from qnet.algebra.library.fock_operators import Destroy
    w = World(case['w'], base=2, extra=4)
    p = CProg(w)
    m = p.ref(case['e'])
    s = p.build(case['e'])
    k, n, D = len(case['w']), m.n, p.D
    a0n = [p.p.ref_scalar(case['a0'][str(i)]) if str(i) in case['a0'] else 0 for i in range(k)]
    a0 = {Destroy(hs=w.spaces[int(i)].hs): sympy.sympify(p.p.build_scalar(v)) for i, v in case['a0'].items()}
    if len(s.space.local_factors) != k:
        raise Discard('a mode is missing in the model')
    kw = {} if case['du'] else {'doubled_up': False}
    if a0 or not case['none']:
        kw['a0'] = a0
    A, B, C, Dm, a, c = [np.array([[sem.num_sympy(sympy.sympify(x), w) for x in row] for row in M.tolist()]) for M in getABCD(s, **kw)]
    Sn = m.S[:, :, 0, 0]
    modes = [w.embed(sem.ladder(w.by_label[lb].N).astype(complex), (lb, ), w.all) for lb in w.all]
    order = [list(w.all).index(str(ls.label)) for ls in sorted(s.space.local_factors)]
    ax, ay, a1, Bx, By = [], [], [], [], []
    for j in order:
        x, y, z = lin_coeffs(heis(m, modes[j]), w, k)
        # displaced: a -> a + a0
        z = z + sum(x[i] * a0n[i] + y[i] * np.conj(a0n[i]) for i in range(k))
        ax.append([x[i] for i in order])
        ay.append([y[i] for i in order])
        a1.append(z)
        bx, by = [], []
        for l in range(n):
            # [L^+, a_j] S dA + dA^+ S^+ [a_j, L]
            bx.append(sum(const(comm(dag(m.L[i]), modes[j]), w) * Sn[i, l] for i in range(n)))
            by.append(sum(const(comm(modes[j], m.L[i]), w) * np.conj(Sn[i, l]) for i in range(n)))
        Bx.append(bx)
        By.append(by)
    cx, cy, c1 = [], [], []
    for i in range(n):
        x, y, z = lin_coeffs(m.L[i], w, k)
        z = z + sum(x[q] * a0n[q] + y[q] * np.conj(a0n[q]) for q in range(k))
        cx.append([x[q] for q in order])
        cy.append([y[q] for q in order])
        c1.append(z)
    du = case['du']
    dbl = lambda x, y: np.block([[np.array(x), np.array(y)], [np.conj(y), np.conj(x)]]) if du else np.array(x)  # noqa
    vec = lambda x: np.concatenate([x, np.conj(x)]) if du else np.array(x)  # noqa
    for nm, got, ref in [('A', A, dbl(ax, ay)), ('B', B, dbl(Bx, By)), ('C', C, dbl(cx, cy)), ('D', Dm, dbl(Sn, 0 * Sn)),
                         ('a', a.reshape(-1), vec(a1)), ('c', c.reshape(-1), vec(c1))]:
        ensure(close(got, ref, 1e-6), 'getABCD: matrix %s is %s instead of %s', nm, got.tolist(), np.asarray(ref).tolist())
    return {'nt': bool(np.abs(m.L).max() > 1e-9), 'tags': ['doubled' if du else 'single', 'a0' if a0 else 'no a0']}


def comm(a, b):
    return a @ b - b @ a


def const(M, w):
    """the scalar c of an operator c*1 on the compared block"""
    b = sem.low_block(M, w)
    c = b[0, 0]
    if not close(b, c * np.eye(len(b)), 1e-7):
        raise Discard('not linear')
    return c


# ------------------------------------------------------------------------------------------------ adiabatic elimination

@st.composite
def adiab_case(draw):
    d = pick(draw, [2, 3, 3, 4])
    basis = ['g', 'e', 'h', 'f'][:d]
    ws = [{'k': 'L', 'l': 'q', 'd': d, 'b': basis}]
    g = draw(st.integers(1, d - 1))      # slow levels 0..g-1, fast levels g..d-1
    n = pick(draw, [1, 2])
    S = draw(unitary(n, 1))
    amps = [['i', 2, 's'], ['q', 1, 2, 's'], ['z', 1, -1, 's'], ['sym', 'z', 'p', 's'], ['z', 0, 1, 's']]
    F, Gs = [], []
    for c in range(n):
        f, gg = [], []
        for j in range(g, d):
            if chance(draw, 2, 3):
                # L = k*conj(F)... maps fast level j to level i
                f.append([draw(st.integers(0, g - 1)), j, pick(draw, amps)])
        for i in range(g):
            if chance(draw, 1, 3):
                gg.append([draw(st.integers(0, g - 1)), i, pick(draw, amps)])
        F.append(f)
        Gs.append(gg)
    hA = []
    for j in range(g, d):
        for i in range(g):
            if chance(draw, 1, 2):
                hA.append([i, j, pick(draw, amps)])
    hB = []
    for i in range(g):
        for j in range(i, g):
            if chance(draw, 1, 3):
                hB.append([i, j, pick(draw, amps)])
    hY = [[j, j, pick(draw, [['i', 1, 's'], ['q', 1, 2, 's'], ['sym', 'z', 'p', 's']])] for j in range(g, d)]
    return fixargs({'w': ws, 'g': g, 'S': S, 'F': F, 'G': Gs, 'hA': hA, 'hB': hB, 'hY': hY, 'sub': g == 1 and chance(draw, 1, 2)})


@PROP.part('adiabatic', adiab_case, quick=250, rule='the fast levels are coupled to the slow ones')
def adiabatic(case):
    from qnet.algebra.core.operator_algebra import LocalSigma, ZeroOperator, IdentityOperator
    w = World(case['w'])
    p = CProg(w)
    hs = w.spaces[0].hs
    d = case['w'][0]['d']
    g = case['g']
    k = sympy.symbols('k', positive=True)
    val = p.p.ref_scalar

    def sig(i, j):
        return LocalSigma(case['w'][0]['b'][i], case['w'][0]['b'][j], hs=hs)

    def obj(ts):
        return sum((sympy.sympify(p.p.build_scalar(c)) * sig(i, j) for i, j, c in ts), ZeroOperator)

    def mat(ts):
        m = np.zeros((d, d), complex)
        for i, j, c in ts:
            m[i, j] += val(c)
        return m
    n = len(case['F'])
    hA, hB = obj(case['hA']), obj(case['hB'])
    H = k ** 2 * obj(case['hY']) + k * (hA + hA.adjoint()) + hB + hB.adjoint()
    L = [[k * obj(f) + obj(x)] for f, x in zip(case['F'], case['G'])]
    slh = SLH(Matrix(p.build_unitary(case['S'])), L, H)
    if slh.cdim != n or slh.space != hs:
        raise Discard('no operator content')
    F = [mat(f).conj().T for f in case['F']]     # L^+ = k F + G
    G = [mat(x).conj().T for x in case['G']]
    mA, mB, mY = mat(case['hA']), mat(case['hB']), mat(case['hY'])
    LdL = lambda a, b: sum((x @ dag(y) for x, y in zip(a, b)), np.zeros((d, d), complex))  # noqa  L^+ L = (kF + G)(kF + G)^+
    Y = -LdL(F, F) / 2 + 1j * mY
    A = -(LdL(F, G) + LdL(G, F)) / 2 + 1j * (mA + dag(mA))
    B = -LdL(G, G) / 2 + 1j * (mB + dag(mB))
    S = p.ref_unitary(case['S'])
    got = prepare_adiabatic_limit(slh, k)
    num = lambda x: sem.op_or_scalar_matrix(x, w)  # noqa
    for nm, x, ref in zip('YAB', got[:3], [Y, A, B]):
        ensure(close(num(x), ref), 'prepare_adiabatic_limit: %s is %s', nm, x)
    for nm, M, ref in (('F', got[3], F), ('G', got[4], G)):
        ensure(M.shape == (1, n), 'prepare_adiabatic_limit: shape %s of %s', M.shape, nm)
        ensure(all(close(num(M.matrix[0, i]), ref[i]) for i in range(n)), 'prepare_adiabatic_limit: %s is %s', nm, M)
    ensure(all(close(num(got[5].matrix[i, j]), np.conj(S[j, i]) * np.eye(d)) for i in range(n) for j in range(n)),
           'prepare_adiabatic_limit: N is not the adjoint of S')
    # assumptions of the limit: P0 Y = Y P0 = 0, P0 A P0 = 0, F P0 ... by construction when no slow-slow 1/k terms appear
    off = Y - np.diag(np.diag(Y))
    if np.abs(off).max() > 1e-12:
        raise Discard('Y is not diagonal (documented as not automatic)')
    P0 = np.zeros((d, d))
    P0[range(g), range(g)] = 1
    if np.abs(np.diag(Y)[g:]).min() < 1e-9 or np.abs(P0 @ A @ P0).max() > 1e-9:
        raise Discard('not in the domain of the limit theorem')
    Yt = np.diag([0 if i < g else 1 / Y[i, i] for i in range(d)])
    lim = try_adiabatic_elimination(slh, k, sub_P0=case['sub'])
    K = P0 @ (B - A @ Yt @ A) @ P0
    # Schur complement check of the reference: P0 (lambda - K_k)^-1 P0 -> (lambda - K)^-1
    kk, lam = 1e4, 0.7
    R = np.linalg.inv(lam * np.eye(d) - (kk ** 2 * Y + kk * A + B))[:g, :g]
    ensure(np.abs(R - np.linalg.inv(lam * np.eye(g) - K[:g, :g])).max() < 1e-2, 'reference of the adiabatic limit')
    Hl = (K - dag(K)) / 2j
    Ll = [dag(P0 @ (G[i] - A @ Yt @ F[i]) @ P0) for i in range(n)]
    N = np.conj(S.T)[:, :, None, None] * np.eye(d)
    dN = np.zeros((n, n, d, d), complex)
    for i in range(n):
        for j in range(n):
            dN[i, j] = (np.eye(d) if i == j else 0) + dag(F[i]) @ Yt @ F[j]
    # operators multiply as P0 N (1 + F^+ Y~ F) P0
    NN = np.einsum('ijab,jkbc->ikac', N, dN)
    Sl = np.zeros_like(NN)
    for i in range(n):
        for j in range(n):
            Sl[j, i] = dag(P0 @ NN[i, j] @ P0)
    m = slh_model(lim, w)
    if case['sub']:
        cut = lambda x: x[..., :g, :g]  # noqa
        ok = close(cut(m.S), cut(Sl), 1e-6) and close(cut(m.L), cut(np.stack(Ll)), 1e-6) and close(cut(m.H), cut(Hl), 1e-6)
    else:
        ok = same(m, Model(Sl, np.stack(Ll), Hl))
    ensure(ok, 'adiabatic limit of %s is %s', slh, lim)
    return {'nt': bool(np.abs(A).max() > 1e-9 or any(case['F'])), 'tags': ['g%d' % g, 'sub' if case['sub'] else 'nosub']}
