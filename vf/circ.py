"""Circuits: JSON specs, the reference composition rules on numeric (S, L, H) models, QNET construction, and the independent
evaluation of a QNET circuit expression by walking its structure.

A model is Model(S, L, H): S of shape (n, n, D, D), L (n, D, D), H (D, D).

Specs: ["csym", label, n, args] ["perm", [..]] ["cid", n] ["czero"] ["comp", class, label, {arg: scalar spec}]
["slh", S, L, H] (S: unitary recipe, L: list of operator specs, H: operator spec, see slh_parts)
["series", [..], form] ["cat", [..], form] ["fb", c, out, in, form] ["inv", c, form] ["pad", c, k, n] ["map", [[in, out]..], n]
["extract", k, n] ["coh", c, [scalar specs]]
"""
from functools import partial, reduce

import numpy as np
import sympy

from . import env  # noqa
from .core import Discard
from . import sem
from .prog import Prog
from .sem import SemError, rand_c, seed_of

from qnet.algebra.core.circuit_algebra import (
    CIdentity, CPermutation, CircuitSymbol, CircuitZero, Component, Concatenation, FB, Feedback, SLH, SeriesInverse, SeriesProduct,
    circuit_identity, extract_channel, map_channels, pad_with_identity)
from qnet.algebra.core.hilbert_space_algebra import LocalSpace
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.operator_algebra import IdentityOperator, LocalProjector, LocalSigma
from qnet.algebra.library.circuit_components import Beamsplitter, CoherentDriveCC, PhaseCC
from qnet.utils.properties_for_args import properties_for_args


@partial(properties_for_args, arg_names='ARGNAMES')
class VAtom(Component):
    """two-level atom with one channel; its space is named after its label"""
    CDIM = 1
    PORTSIN = ('in', )
    PORTSOUT = ('out', )
    ARGNAMES = ('gamma', 'Delta')
    DEFAULTS = {'gamma': sympy.Symbol('gamma', positive=True), 'Delta': sympy.Symbol('Delta', real=True)}
    IDENTIFIER = 'VA'

    @property
    def hs(self):
        return LocalSpace(self.label, basis=('g', 'e'))

    def _toSLH(self):
        return SLH(Matrix([[1]]), Matrix([[sympy.sqrt(self.gamma) * LocalSigma('g', 'e', hs=self.hs)]]),
                   self.Delta * LocalProjector('e', hs=self.hs))


@partial(properties_for_args, arg_names='ARGNAMES')
class VAtom2(VAtom):
    """two-level atom between two channels"""
    CDIM = 2
    PORTSIN = ('left', 'right')
    PORTSOUT = ('reflected', 'through')
    ARGNAMES = ('gamma', 'kappa', 'Delta')
    DEFAULTS = {'gamma': sympy.Symbol('gamma', positive=True), 'kappa': sympy.Symbol('kappa', positive=True),
                'Delta': sympy.Symbol('Delta', real=True)}
    IDENTIFIER = 'VB'

    def _toSLH(self):
        s = LocalSigma('g', 'e', hs=self.hs)
        return SLH(Matrix([[0, 1], [1, 0]]), Matrix([[sympy.sqrt(self.gamma) * s], [sympy.sqrt(self.kappa) * s]]),
                   self.Delta * LocalProjector('e', hs=self.hs))


COMPONENTS = {'W': CoherentDriveCC, 'Phase': PhaseCC, 'BS': Beamsplitter, 'VA': VAtom, 'VB': VAtom2}
BY_CLASS = {v.__name__: k for k, v in COMPONENTS.items()}
ATOM_ARGS = {'VA': ('gamma', 'Delta'), 'VB': ('gamma', 'kappa', 'Delta')}
CDIM = {'W': 1, 'Phase': 1, 'BS': 2, 'VA': 1, 'VB': 2}
PORTS = {'W': (['in'], ['out']), 'Phase': (['in'], ['out']), 'BS': (['in', 'vac'], ['tr', 'rf']), 'VA': (['in'], ['out']),
         'VB': (['left', 'right'], ['reflected', 'through'])}


class Model:
    def __init__(self, S, L, H):
        self.S, self.L, self.H = S, L, H

    @property
    def n(self):
        return self.S.shape[0]


def dag(m):
    return np.conj(np.swapaxes(m, -1, -2))


def scalar_model(S, L, D, H=None):
    S = np.asarray(S, complex)
    n = S.shape[0]
    e = np.eye(D)
    return Model(S[:, :, None, None] * e, np.asarray(L, complex).reshape(n)[:, None, None] * e,
                 np.zeros((D, D), complex) if H is None else H)


def im_part(x):
    return (x - dag(x)) / 2j


def m_series(a, b):
    if a.n != b.n:
        raise SemError('series product of circuits with %d and %d channels' % (a.n, b.n))
    S = np.einsum('ijab,jkbc->ikac', a.S, b.S)
    SL = np.einsum('ijab,jbc->iac', a.S, b.L)
    H = a.H + b.H + im_part(np.einsum('iab,ibc->ac', dag(a.L), SL))
    return Model(S, SL + a.L, H)


def m_cat(a, b):
    n, k = a.n, b.n
    D = a.H.shape[0]
    S = np.zeros((n + k, n + k, D, D), complex)
    S[:n, :n] = a.S
    S[n:, n:] = b.S
    return Model(S, np.concatenate([a.L, b.L]), a.H + b.H)


def m_fb(a, out, inp):
    n = a.n
    if n < 1 or not (0 <= out < n and 0 <= inp < n):
        raise SemError('feedback port out of range')
    D = a.H.shape[0]
    M = np.eye(D) - a.S[out, inp]
    if np.linalg.cond(M) > 1e3 or np.linalg.norm(M) < 1e-3:
        raise Discard('ill-posed feedback loop')
    Mi = np.linalg.inv(M)
    rows = [i for i in range(n) if i != out]
    cols = [i for i in range(n) if i != inp]
    S = np.zeros((n - 1, n - 1, D, D), complex)
    L = np.zeros((n - 1, D, D), complex)
    for i, r in enumerate(rows):
        L[i] = a.L[r] + a.S[r, inp] @ Mi @ a.L[out]
        for j, c in enumerate(cols):
            S[i, j] = a.S[r, c] + a.S[r, inp] @ Mi @ a.S[out, c]
    X = np.zeros((D, D), complex)
    for j in range(n):
        X += dag(a.L[j]) @ a.S[j, inp] @ Mi @ a.L[out]
    return Model(S, L, a.H + im_part(X))


def m_inv(a):
    Sd = np.conj(np.transpose(a.S, (1, 0, 3, 2)))
    return Model(Sd, -np.einsum('ijab,jbc->iac', Sd, a.L), -a.H)


def m_perm(p, D):
    n = len(p)
    S = np.zeros((n, n))
    for j, k in enumerate(p):
        S[k, j] = 1
    return scalar_model(S, np.zeros(n), D)


def m_id(n, D):
    return scalar_model(np.eye(n).reshape(n, n), np.zeros(n), D)


def m_symbol(label, n, args, D):
    key = ('circ', str(label), n, D)
    m = rand_c(key, (n * D, n * D))
    L = rand_c(key + ('L', ), (n, D, D), 0.5)
    H = rand_c(key + ('H', ), (D, D), 0.5)
    for i, v in enumerate(args):
        m = m + rand_c(key + (i, ), (n * D, n * D)) * np.sin(0.7 * v + 0.2 * i)
        L = L + rand_c(key + ('L', i), (n, D, D), 0.3) * v
    q, _ = np.linalg.qr(m)
    S = q.reshape(n, D, n, D).transpose(0, 2, 1, 3)
    return Model(np.ascontiguousarray(S), L, H + dag(H))


def m_component(name, label, vals, w):
    D = w.dim(w.all)
    if name == 'W':
        return scalar_model([[1]], [vals['displacement']], D)
    if name == 'Phase':
        return scalar_model([[np.exp(1j * vals['phase'])]], [0], D)
    if name == 'BS':
        t = vals['mixing_angle']
        return scalar_model([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]], [0, 0], D)
    sm = w.embed(np.array([[0, 1], [0, 0]], complex), (label, ), w.all)
    pe = w.embed(np.diag([0, 1]).astype(complex), (label, ), w.all)
    H = vals['Delta'].real * pe
    if name == 'VA':
        return Model(np.eye(D)[None, None] + 0j, (np.sqrt(vals['gamma']) * sm)[None], H)
    S = np.array([[0, 1], [1, 0]])[:, :, None, None] * np.eye(D) + 0j
    return Model(S, np.stack([np.sqrt(vals['gamma']) * sm, np.sqrt(vals['kappa']) * sm]), H)


def defaults(name):
    return {k: v for k, v in COMPONENTS[name].DEFAULTS.items()}


class CProg:
    def __init__(self, w):
        self.w = w
        self.p = Prog(w)
        self.D = w.dim(w.all)

    # ---------------------------------------------------------------- reference
    def compvals(self, name, args):
        vals = {k: sem.num_sympy(v, self.w) for k, v in defaults(name).items()}
        for k, s in args.items():
            vals[k] = self.p.ref_scalar(s)
        return vals

    def ref_unitary(self, u):
        """recipe: ["U", n, [steps]]; step ["ph", k, scalar] | ["rot", i, j, scalar] | ["perm", [..]]; value n x n"""
        n = u[1]
        S = np.eye(n, dtype=complex)
        for st in u[2]:
            G = np.eye(n, dtype=complex)
            if st[0] == 'ph':
                G[st[1], st[1]] = np.exp(1j * self.p.ref_scalar(st[2]))
            elif st[0] == 'rot':
                c, s = np.cos(self.p.ref_scalar(st[3])), np.sin(self.p.ref_scalar(st[3]))
                i, j = st[1], st[2]
                G[i, i], G[i, j], G[j, i], G[j, j] = c, -s, s, c
            else:
                G = np.zeros((n, n), complex)
                for a, b in enumerate(st[1]):
                    G[b, a] = 1
            S = G @ S
        return S

    def build_unitary(self, u):
        n = u[1]
        S = sympy.eye(n)
        val = lambda s: sympy.sympify(self.p.build_scalar(s))  # noqa
        for st in u[2]:
            G = sympy.eye(n)
            if st[0] == 'ph':
                G[st[1], st[1]] = sympy.exp(sympy.I * val(st[2]))
            elif st[0] == 'rot':
                c, s = sympy.cos(val(st[3])), sympy.sin(val(st[3]))
                i, j = st[1], st[2]
                G[i, i], G[i, j], G[j, i], G[j, j] = c, -s, s, c
            else:
                G = sympy.zeros(n, n)
                for a, b in enumerate(st[1]):
                    G[b, a] = 1
            S = G * S
        return S

    def ref(self, s):
        t = s[0]
        D = self.D
        if t == 'csym':
            return m_symbol(s[1], s[2], [self.p.ref_scalar(a) for a in s[3]], D)
        if t == 'perm':
            return m_perm(s[1], D)
        if t == 'cid':
            return m_id(s[1], D)
        if t == 'czero':
            return m_id(0, D)
        if t == 'comp':
            return m_component(s[1], s[2], self.compvals(s[1], s[3]), self.w)
        if t == 'slh':
            return self.ref_slh(s)
        if t == 'series':
            return reduce(m_series, [self.ref(x) for x in s[1]])
        if t == 'cat':
            return reduce(m_cat, [self.ref(x) for x in s[1]])
        if t == 'fb':
            return m_fb(self.ref(s[1]), s[2], s[3])
        if t == 'inv':
            return m_inv(self.ref(s[1]))
        if t == 'pad':
            a = self.ref(s[1])
            k, n = s[2], s[3]
            m = m_cat(a, m_id(n, D))
            order = list(range(k)) + list(range(a.n, a.n + n)) + list(range(k, a.n))   # order[new] = old
            return Model(m.S[np.ix_(order, order)], m.L[order], m.H)
        if t == 'map':
            return m_perm(mapped(s[1], s[2]), D)
        if t == 'extract':
            k, n = s[1], s[2]
            rest = [i for i in range(n) if i != k]
            p = [None] * n
            p[k] = n - 1
            for a, i in enumerate(rest):
                p[i] = a
            return m_perm(p, D)
        if t == 'coh':
            a = self.ref(s[1])
            amps = [self.p.ref_scalar(x) for x in s[2]]
            return m_series(a, scalar_model(np.eye(a.n), amps, D))
        if t == 'slhinv':
            return m_inv(self.ref(s[1]))
        raise ValueError(s)

    def ref_slh(self, s):
        D = self.D
        _, u, Ls, H = s
        if u[0] == 'U':
            S = self.ref_unitary(u)[:, :, None, None] * np.eye(D)
        else:   # ["ctrl", i, level, U1, U2]: projector-controlled unitary
            P = self.p.ref_op(['proj', u[1], u[2], 0])
            Q = np.eye(D) - P
            S = (self.ref_unitary(u[3])[:, :, None, None] * P + self.ref_unitary(u[4])[:, :, None, None] * Q)
        return Model(S, np.stack([self.p.ref_op(x) for x in Ls]), self.p.ref_op(H))

    # ---------------------------------------------------------------- construction
    def build(self, s):
        t = s[0]
        if t == 'csym':
            return CircuitSymbol(s[1], *[self.p.build_scalar(a) for a in s[3]], cdim=s[2])
        if t == 'perm':
            return CPermutation.create(tuple(s[1]))
        if t == 'cid':
            return circuit_identity(s[1])
        if t == 'czero':
            return CircuitZero
        if t == 'comp':
            return self.comp(s)
        if t == 'slh':
            return self.build_slh(s)
        if t == 'series':
            xs = [self.build(x) for x in s[1]]
            return SeriesProduct.create(*xs) if s[2] else reduce(lambda a, b: a << b, xs)
        if t == 'cat':
            xs = [self.build(x) for x in s[1]]
            return Concatenation.create(*xs) if s[2] else reduce(lambda a, b: a + b, xs)
        if t == 'fb':
            c = self.build(s[1])
            n = c.cdim
            if s[4] == 1:
                return FB(c, out_port=s[2], in_port=s[3])
            if s[4] == 2:
                return Feedback.create(c, out_port=s[2], in_port=s[3])
            kw = {}
            if s[2] != n - 1 or s[4] == 3:
                kw['out_port'] = s[2]
            if s[3] != n - 1 or s[4] == 3:
                kw['in_port'] = s[3]
            return c.feedback(**kw)
        if t == 'inv':
            c = self.build(s[1])
            return SeriesInverse.create(c) if s[2] else c.series_inverse()
        if t == 'pad':
            return pad_with_identity(self.build(s[1]), s[2], s[3])
        if t == 'map':
            return map_channels({a: b for a, b in s[1]}, s[2])
        if t == 'extract':
            return extract_channel(s[1], s[2])
        if t == 'coh':
            return self.build(s[1]).coherent_input(*[self.p.build_scalar(x) for x in s[2]])
        raise ValueError(s)

    def comp(self, s):
        cls = COMPONENTS[s[1]]
        kw = {k: self.p.build_scalar(v) for k, v in s[3].items()}
        kw = {k: (v.val if hasattr(v, 'val') else v) for k, v in kw.items()}
        if s[2] is not None:
            kw['label'] = s[2]
        return cls(**kw)

    def build_slh(self, s):
        _, u, Ls, H = s
        if u[0] == 'U':
            S = Matrix(self.build_unitary(u))
        else:
            P = self.p.build_op(['proj', u[1], u[2], 0])
            Q = IdentityOperator - P
            S = Matrix(self.build_unitary(u[3])) * P + Matrix(self.build_unitary(u[4])) * Q
        return SLH(S, [[self.p.build_op(x)] for x in Ls], self.p.build_op(H))


def mapped(pairs, n):
    p = [None] * n
    used = set()
    for a, b in pairs:
        p[a] = b
        used.add(b)
    free = [i for i in range(n) if i not in used]
    for i in range(n):
        if p[i] is None:
            p[i] = free.pop(0)
    return p


def model_of(e, w):
    """Independent evaluation of a circuit expression"""
    if w.over:
        r = sem.overridden(e, w)
        if r is not None:
            return model_of(r, w.with_over({}))
    D = w.dim(w.all)
    n = type(e).__name__
    if n == 'CIdentity':
        return m_id(1, D)
    if n == 'CircuitZero':
        return m_id(0, D)
    if n == 'CPermutation':
        if sorted(e.permutation) != list(range(len(e.permutation))):
            raise SemError('not a permutation: %r' % (e.permutation, ))
        return m_perm(e.permutation, D)
    if n == 'CircuitSymbol':
        return m_symbol(e.label, e.cdim, [sem.scalar(a, w) for a in e.sym_args], D)
    if n in BY_CLASS:
        kw = dict(e.kwargs)
        label = kw.pop('label')
        return m_component(BY_CLASS[n], label, {k: sem.scalar(v, w) for k, v in kw.items()}, w)
    if n == 'SLH':
        return slh_model(e, w)
    if n == 'SeriesProduct':
        return reduce(m_series, [model_of(o, w) for o in e.operands])
    if n == 'Concatenation':
        return reduce(m_cat, [model_of(o, w) for o in e.operands])
    if n == 'Feedback':
        return m_fb(model_of(e.operand, w), e.out_port, e.in_port)
    if n == 'SeriesInverse':
        return m_inv(model_of(e.operand, w))
    raise SemError('not a circuit: %r' % (e, ))


def slh_model(e, w):
    D = w.dim(w.all)
    k = e.S.shape[0]
    S = np.zeros((k, k, D, D), complex)
    L = np.zeros((k, D, D), complex)
    if e.S.shape != (k, k) or e.L.shape != (k, 1):
        raise SemError('SLH with shapes %s %s' % (e.S.shape, e.L.shape))
    for i in range(k):
        L[i] = sem.op_or_scalar_matrix(e.L.matrix[i, 0], w)
        for j in range(k):
            S[i, j] = sem.op_or_scalar_matrix(e.S.matrix[i, j], w)
    return Model(S, L, sem.op_or_scalar_matrix(e.H, w))


def same(a, b, tol=1e-6):
    return a.n == b.n and sem.close(a.S, b.S, tol) and sem.close(a.L, b.L, tol) and sem.close(a.H, b.H, tol)


def differs(a, b, tol=1e-6):
    if a.n != b.n:
        return 'channel numbers %d and %d' % (a.n, b.n)
    return ', '.join(k for k in 'SLH' if not sem.close(getattr(a, k), getattr(b, k), tol))


def cdim(s):
    t = s[0]
    if t in ('csym', 'map'):
        return s[2]
    if t == 'perm':
        return len(s[1])
    if t == 'cid':
        return s[1]
    if t == 'czero':
        return 0
    if t == 'comp':
        return CDIM[s[1]]
    if t == 'slh':
        return len(s[2])
    if t == 'series':
        return cdim(s[1][0])
    if t == 'cat':
        return sum(cdim(x) for x in s[1])
    if t == 'fb':
        return cdim(s[1]) - 1
    if t in ('inv', 'coh'):
        return cdim(s[1])
    if t == 'pad':
        return cdim(s[1]) + s[3]
    if t == 'extract':
        return s[2]
    raise ValueError(s)


def csize(s):
    if not isinstance(s, (list, tuple)):
        return 0
    return (1 if s and isinstance(s[0], str) else 0) + sum(csize(x) for x in s if isinstance(x, (list, tuple)))
