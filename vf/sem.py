"""Independent denotational semantics: QNET expression -> numpy, by walking the public structure of the expression.

World(json): the registry of local Hilbert spaces plus deterministic interpretations for symbols.

Axes are ordered by the world's own list of spaces, never by QNET's canonical order.
"""
import hashlib
import itertools
import math

import numpy as np
import scipy.linalg as sla
import sympy

from . import env  # noqa
from .core import Violation
from qnet.algebra.core.hilbert_space_algebra import (
    FullSpace, HilbertSpace, LocalSpace, ProductSpace, TrivialSpace)
from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
from qnet.algebra.library.spin_algebra import SpinSpace
from qnet.utils.indices import SymbolicLabelBase, IdxSym


class SemError(Violation):
    """The expression has no meaning in the world (ill-formed result)"""


def seed_of(*key):
    return int(hashlib.sha256(repr(key).encode()).hexdigest()[:12], 16)


_RM = {}


def rand_c(key, shape, scale=1.0):
    k = (key, shape)
    m = _RM.get(k)
    if m is None:
        rng = np.random.RandomState(seed_of(key) % (2**32))
        m = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
        if len(_RM) < 20000:
            _RM[k] = m
    return m * scale


def default_symbol_value(name, kind):
    rng = np.random.RandomState(seed_of('sym', name) % (2**32))
    if kind == 'c':
        return complex(rng.uniform(0.4, 1.3) * np.exp(1j * rng.uniform(0.3, 1.2)))
    if kind == 'p':
        return float(rng.uniform(0.5, 1.6))
    if kind == 'r':
        return float(rng.uniform(0.4, 1.4) * (-1 if rng.uniform() < 0.3 else 1))
    raise ValueError(kind)


def symbol_kind(sym):
    if sym.is_positive:
        return 'p'
    if sym.is_real:
        return 'r'
    return 'c'


# --------------------------------------------------------------------- sympy evaluation

_FUNCS = {
    'exp': np.exp, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh,
    'log': np.log, 'conjugate': np.conj, 're': np.real, 'im': np.imag, 'Abs': abs, 'sign': lambda z: z / abs(z) if z else 0,
    'arg': np.angle,
}


def num_sympy(e, world):
    """Numeric (complex) value of a sympy expression; symbols through the world"""
    if isinstance(e, (int, float, complex, np.number)):
        return complex(e)
    if not isinstance(e, sympy.Basic):
        raise SemError('not a number: %r' % (e, ))
    if isinstance(e, sympy.Symbol):
        return world.symval(e)
    if e.is_Number or e.is_NumberSymbol:
        return complex(float(e)) if e.is_finite is not False else complex(float('nan'))
    if e is sympy.I:
        return 1j
    if e.is_Add:
        return sum((num_sympy(a, world) for a in e.args), 0j)
    if e.is_Mul:
        r = 1 + 0j
        for a in e.args:
            r = r * num_sympy(a, world)
        return r
    if e.is_Pow:
        b, x = num_sympy(e.base, world), num_sympy(e.exp, world)
        if x == int(x.real):
            return b ** int(x.real)
        if b == 0:
            return 0j
        return complex(np.exp(x * np.log(b)))
    name = e.func.__name__
    if name in _FUNCS:
        return complex(_FUNCS[name](num_sympy(e.args[0], world)))
    if name == 'KroneckerDelta':
        a, b = (num_sympy(x, world) for x in e.args)
        return 1 + 0j if abs(a - b) < 1e-9 else 0j
    if name == 'Piecewise':
        for (val, cond) in e.args:
            if cond == True or world.truth(cond):  # noqa
                return num_sympy(val, world)
        return complex(float('nan'))
    if name == 'factorial':
        return complex(math.factorial(int(round(num_sympy(e.args[0], world).real))))
    if isinstance(e, sympy.Indexed):
        return world.symval(sympy.Symbol('%s_%s' % (e.base.label, ','.join(
            str(int(num_sympy(i, world).real)) for i in e.indices))))
    if name == 'Derivative' or name == 'Subs':
        raise SemError('unevaluated sympy %s' % name)
    subs = {s: world.symval(s) for s in e.free_symbols}
    return complex(e.evalf(subs=subs)) if False else complex(sympy.N(e.subs(subs)))


# --------------------------------------------------------------------- world

class Space:
    def __init__(self, js, N):
        self.js = js
        self.kind = js['k']
        self.label = str(js['l'])
        self.alias = str(js.get('a', js['l']))      # the name that the interpretation of symbols depends on
        self.N = N
        kw = {}
        if js.get('o') is not None:
            kw['order_index'] = js['o']
        if js.get('ids'):
            kw['local_identifiers'] = dict(js['ids'])
        if self.kind == 'L':
            if js.get('b') is not None:
                self.hs = LocalSpace(js['l'], basis=tuple(js['b']), **kw)
                self.labels = tuple(js['b'])
            else:
                self.hs = LocalSpace(js['l'], dimension=js['d'], **kw)
                self.labels = tuple(str(i) for i in range(js['d']))
            self.N = js['d']
        elif self.kind == 'S':
            if js.get('b') is not None:
                kw['basis'] = tuple(js['b'])
            s2 = js['s2']   # twice the spin
            self.hs = SpinSpace(js['l'], spin=sympy.Rational(s2, 2), **kw)
            self.N = s2 + 1
            if js.get('b') is not None:
                self.labels = tuple(js['b'])
            else:
                def lab(m2):
                    sgn = '+' if m2 > 0 else ('-' if m2 < 0 else '')
                    return sgn + (str(abs(m2) // 2) if s2 % 2 == 0 else '%d/2' % abs(m2))
                self.labels = tuple(lab(-s2 + 2 * i) for i in range(self.N))
        elif self.kind == 'F':
            if js.get('n'):
                # with an explicit dimension: the truncation
                self.N = js['n']
                self.hs = LocalSpace(js['l'], dimension=self.N, **kw)
                self.labels = tuple(str(i) for i in range(self.N))
            else:
                self.hs = LocalSpace(js['l'], **kw)
                self.labels = None
        else:
            raise ValueError(js)

    @property
    def finite(self):
        return self.kind != 'F'


class World:
    """base: number of low levels of Fock spaces that are compared; extra: truncation margin"""

    def __init__(self, spaces, base=3, extra=0):
        self.base = base
        self.extra = extra
        self.spaces = [Space(js, base + extra) for js in spaces]
        self.by_label = {s.label: s for s in self.spaces}
        self.order = {s.label: i for i, s in enumerate(self.spaces)}
        self.all = tuple(s.label for s in self.spaces)
        self.env = {}       # symbol name -> value override
        self.idx = {}       # (name, primed) -> int
        self.normal_exp = True
        self.over = {}      # expressions that are to be read as other expressions

    def with_env(self, **kw):
        w = World.__new__(World)
        w.__dict__.update(self.__dict__)
        w.env = dict(self.env, **kw)
        return w

    def with_idx(self, m):
        w = World.__new__(World)
        w.__dict__.update(self.__dict__)
        w.idx = dict(self.idx, **{})
        w.idx.update(m)
        return w

    def with_over(self, over):
        w = World.__new__(World)
        w.__dict__.update(self.__dict__)
        w.over = dict(over)
        return w

    def alias(self, sub):
        return tuple(self.by_label[lb].alias for lb in sub)

    # ---- symbols
    def symval(self, sym):
        if isinstance(sym, IdxSym):
            key = (sym.name, sym.primed)
            if key not in self.idx:
                raise SemError('index %s%s occurs outside of its sum' % (sym.name, "'" * sym.primed))
            return complex(self.idx[key])
        name = sym.name
        if name in self.env:
            return complex(self.env[name])
        return complex(default_symbol_value(name, symbol_kind(sym)))

    def truth(self, cond):
        subs = {}
        for s in cond.free_symbols:
            v = self.symval(s)
            subs[s] = sympy.Integer(int(round(v.real))) if abs(v - round(v.real)) < 1e-12 else v.real
        r = cond.subs(subs)
        return bool(r)

    # ---- spaces
    def dim(self, labels):
        r = 1
        for lb in labels:
            r *= self.by_label[lb].N
        return r

    def dims(self, labels):
        return [self.by_label[lb].N for lb in labels]

    def labels_of(self, hs):
        """Labels of the local factors of a HilbertSpace in the world's order"""
        if hs is TrivialSpace:
            return ()
        if hs is FullSpace:
            raise SemError('FullSpace has no finite meaning here')
        if not isinstance(hs, HilbertSpace):
            raise SemError('not a Hilbert space: %r' % (hs, ))
        out = []
        for ls in hs.local_factors:
            lb = ls.label
            if isinstance(lb, SymbolicLabelBase):
                lb = self.render(lb)
            lb = str(lb)
            if lb not in self.by_label:
                raise SemError('unknown space %s' % lb)
            sp = self.by_label[lb]
            if not isinstance(ls.label, SymbolicLabelBase) and ls != sp.hs:
                raise SemError('space %r differs from the registered %r' % (ls, sp.hs))
            out.append(lb)
        return tuple(sorted(set(out), key=self.order.get))

    def sort(self, labels):
        return tuple(sorted(set(labels), key=self.order.get))

    def embed(self, mat, sub, labels):
        """mat on spaces `sub` (world order) -> matrix on `labels` (world order, superset)"""
        sub, labels = tuple(sub), tuple(labels)
        if sub == labels:
            return mat
        rest = [lb for lb in labels if lb not in sub]
        if len(rest) + len(sub) != len(labels):
            raise SemError('operator on %s does not fit into %s' % (sub, labels))
        ds, dr = self.dims(sub), self.dims(rest)
        n = len(sub)
        t = np.kron(mat.reshape(self.dim(sub), -1), np.eye(self.dim(rest))).reshape(ds + dr + ds + dr)
        cur = list(sub) + rest
        perm = [cur.index(lb) for lb in labels]
        k = len(labels)
        t = t.transpose(perm + [k + p for p in perm])
        D = self.dim(labels)
        return np.ascontiguousarray(t.reshape(D, D))

    def reorder_vec(self, vec, cur, labels):
        cur = list(cur)
        t = vec.reshape(self.dims(cur) or [1])
        if not cur:
            return vec
        return t.transpose([cur.index(lb) for lb in labels]).reshape(-1)

    # ---- labels of levels
    def render(self, label):
        """symbolic label -> str/int by numeric evaluation"""
        cls = type(label).__name__
        if cls in ('IntIndex', 'FockIndex'):
            v = num_sympy(label.expr, self)
            return int(round(v.real))
        if cls == 'FockLabel':
            i = int(round(num_sympy(label.expr, self).real))
            lb = label.hs.label
            return self.by_label[str(lb)].labels[i]
        if cls == 'SpinIndex':
            v = num_sympy(label.expr, self).real
            return ('spin', int(round(2 * v)))
        if cls == 'StrLabel':
            e = label.expr
            subs = {s: sympy.Integer(int(round(self.symval(s).real))) for s in e.free_symbols if isinstance(s, IdxSym)}
            e = e.subs(subs)
            if isinstance(e, sympy.Indexed):
                return '%s_%s' % (e.base.label, ','.join(str(i) for i in e.indices))
            return str(e)
        raise SemError('unknown symbolic label %r' % (label, ))

    def level(self, label, sp):
        """level index of a label/index in space sp (a Space)"""
        if isinstance(label, SymbolicLabelBase):
            label = self.render(label)
        if isinstance(label, tuple):
            if sp.kind != 'S':
                raise SemError('spin label in a non-spin space')
            i = (label[1] + sp.js['s2']) // 2
            if not 0 <= i < sp.N or (label[1] + sp.js['s2']) % 2:
                return None
            return i
        if isinstance(label, (int, np.integer)):
            i = int(label)
            if sp.finite and not 0 <= i < sp.N:
                return None
            if not 0 <= i:
                return None
            if i >= sp.N:
                raise SemError('level %d beyond truncation %d' % (i, sp.N))
            return i
        if isinstance(label, str):
            if sp.labels is None:
                raise SemError('string label %r in a space without basis' % label)
            if label not in sp.labels:
                raise SemError('label %r not in %r' % (label, sp.labels))
            return sp.labels.index(label)
        raise SemError('bad label %r' % (label, ))

    def sp(self, hs):
        lbs = self.labels_of(hs)
        if len(lbs) != 1:
            raise SemError('not a local space: %r' % hs)
        return self.by_label[lbs[0]]

    # ---- interpretations
    def op_symbol(self, label, argvals, sub):
        key = ('op', str(label), self.alias(sub))
        shape_levels = []
        for lb in sub:
            s = self.by_label[lb]
            shape_levels.append(s.N if s.finite else self.base)
        d = int(np.prod(shape_levels)) if sub else 1
        m = rand_c(key, (d, d), 0.6)
        for i, v in enumerate(argvals):
            m = (m + rand_c(key + ('s', i), (d, d), 0.4) * np.sin(0.7 * v + 0.3 * i)
                 + rand_c(key + ('q', i), (d, d), 0.2) * v * v)
        if all(self.by_label[lb].finite for lb in sub):
            return m
        full = np.zeros([self.by_label[lb].N for lb in sub] * 2, complex)
        sl = tuple(slice(0, k) for k in shape_levels) * 2
        full[sl] = m.reshape(shape_levels * 2)
        D = self.dim(sub)
        return full.reshape(D, D)

    def ket_symbol(self, label, argvals, sub):
        key = ('ket', str(label), self.alias(sub))
        levels = [self.by_label[lb].N if self.by_label[lb].finite else self.base for lb in sub]
        d = int(np.prod(levels))
        v = rand_c(key, (d, ))
        for i, a in enumerate(argvals):
            v = v + rand_c(key + ('s', i), (d, ), 0.5) * np.sin(0.7 * a + 0.3 * i)
        nrm = np.linalg.norm(v)
        v = v / nrm
        full = np.zeros([self.by_label[lb].N for lb in sub], complex)
        full[tuple(slice(0, k) for k in levels)] = v.reshape(levels)
        return full.reshape(-1)

    def sop_symbol(self, label, argvals, sub):
        levels = [self.by_label[lb].N if self.by_label[lb].finite else self.base for lb in sub]
        D = int(np.prod(levels))
        key = ('sop', str(label), self.alias(sub))
        m = rand_c(key, (D * D, D * D), 0.5)
        for i, v in enumerate(argvals):
            m = m + rand_c(key + ('s', i), (D * D, D * D), 0.3) * np.sin(0.7 * v + 0.3 * i)
        if all(self.by_label[lb].finite for lb in sub):
            return m
        # only the low levels of Fock spaces are touched (exact under truncation)
        full = np.zeros([self.by_label[lb].N for lb in sub] * 4, complex)
        full[tuple(slice(0, k) for k in levels) * 4] = m.reshape(levels * 4)
        D = self.dim(sub)
        return full.reshape(D * D, D * D)

    def embed_super(self, mat, sub, labels):
        """Liouville matrix (row-major vec) on sub -> on labels"""
        sub, labels = tuple(sub), tuple(labels)
        if sub == labels:
            return mat
        rest = [lb for lb in labels if lb not in sub]
        ds, dr = self.dims(sub), self.dims(rest)
        S, Rr = self.dim(sub), self.dim(rest)
        # indices: (out row s, out col s, in row s, in col s)
        t = mat.reshape(S, S, S, S)
        e = np.eye(Rr)
        full = np.einsum('abcd,eg,fh->aebfcgdh', t, e, e)   # out row (s r), out col (s r), in row, in col
        cur = list(sub) + rest
        k = len(cur)
        full = full.reshape((ds + dr) * 4)
        perm = [cur.index(lb) for lb in labels]
        axes = sum([[g * k + p for p in perm] for g in range(4)], [])
        D = self.dim(labels)
        return full.transpose(axes).reshape(D * D, D * D)


# --------------------------------------------------------------------- local operators

_EXPM = {}


def ladder(N):
    return np.diag(np.sqrt(np.arange(1, N)), 1).astype(complex)


def displace_mat(alpha, N):
    key = ('D', complex(alpha), N)
    if key not in _EXPM:
        if len(_EXPM) > 500:
            _EXPM.clear()
        M = N + 40
        a = ladder(M)
        _EXPM[key] = sla.expm(alpha * a.conj().T - np.conj(alpha) * a)[:N, :N]
    return _EXPM[key]


def squeeze_mat(xi, N):
    key = ('Q', complex(xi), N)
    if key not in _EXPM:
        if len(_EXPM) > 500:
            _EXPM.clear()
        M = N + 60
        a = ladder(M)
        # documented: exp( eta/2 a^dag^2 - eta^*/2 a^2 )
        _EXPM[key] = sla.expm(0.5 * xi * (a.conj().T @ a.conj().T) - 0.5 * np.conj(xi) * (a @ a))[:N, :N]
    return _EXPM[key]


def spin_mats(s2):
    s = s2 / 2.0
    N = s2 + 1
    m = np.array([-s + i for i in range(N)])
    jz = np.diag(m).astype(complex)
    jp = np.zeros((N, N), complex)
    for i in range(N - 1):
        jp[i + 1, i] = math.sqrt(s * (s + 1) - m[i] * (m[i] + 1))
    return jz, jp, jp.conj().T


# --------------------------------------------------------------------- the evaluators

def cname(e):
    return type(e).__name__


MAX_DERIV = 4
_STENCIL = None


def central_stencil(n, half=5):
    """coefficients for the n-th derivative on integer points -half..half"""
    pts = np.arange(-half, half + 1)
    A = np.vander(pts, increasing=True).T.astype(float)
    b = np.zeros(len(pts))
    b[n] = math.factorial(n)
    return pts, np.linalg.solve(A, b)


def fd(f, x0, n, h=0.04):
    """n-th derivative of f at real x0"""
    if n == 0:
        return f(x0)
    pts, c = central_stencil(n, 5 if n < 3 else 6)
    acc = None
    for p, w in zip(pts, c):
        if abs(w) < 1e-14:
            continue
        v = w * f(x0 + p * h)
        acc = v if acc is None else acc + v
    return acc / h ** n


def _derivative(e, w, f):
    """numeric value of a QuantumDerivative; f(operand, world)"""
    vals = {s: num_sympy(v if not hasattr(v, 'val') else v.val, w) for s, v in e.vals.items()}
    derivs = list(e.derivs.items())
    for s, _ in derivs:
        if not isinstance(s, sympy.Symbol):
            raise SemError('derivative with respect to non-symbol %s' % s)

    def rec(i, w2):
        if i == len(derivs):
            return f(e.operand, w2)
        s, n = derivs[i]
        x0 = vals.get(s, w.symval(s))
        return fd(lambda x: rec(i + 1, w2.with_env(**{s.name: x})), x0, int(n))
    return rec(0, w)


def ranges_iter(ranges, w, limit=None):
    """index environments of a list of index ranges"""
    lists = []
    for r in ranges:
        key = (r.index_symbol.name, r.index_symbol.primed)
        rn = cname(r)
        if rn == 'IndexOverList':
            vals = list(r.values)
        elif rn == 'IndexOverRange':
            stop = r.to + 1 if r.step >= 0 else r.to - 1
            vals = list(range(r.start_from, stop, r.step))
        elif rn == 'IndexOverFockSpace':
            sp = w.sp(r.hs)
            vals = list(range(sp.N))
        else:
            raise SemError('unknown index range %r' % (r, ))
        lists.append([(key, v) for v in vals])
    for combo in itertools.product(*lists):
        yield dict(combo)


def overridden(e, w):
    for k, v in w.over.items():
        if k is e or (type(k) is type(e) and k == e):
            return v
    return None


def scalar(e, w):
    if w.over:
        r = overridden(e, w)
        if r is not None:
            return scalar(r, w.with_over({}))
    n = cname(e)
    if isinstance(e, (int, float, complex, np.number)):
        return complex(e)
    if isinstance(e, sympy.Basic):
        return num_sympy(e, w)
    if n == 'ScalarValue':
        return num_sympy(e.val, w)
    if n == 'Zero':
        return 0j
    if n == 'One':
        return 1 + 0j
    if n == 'ScalarPlus':
        return sum((scalar(o, w) for o in e.operands), 0j)
    if n == 'ScalarTimes':
        r = 1 + 0j
        for o in e.operands:
            r *= scalar(o, w)
        return r
    if n == 'ScalarPower':
        b, x = scalar(e.operands[0], w), scalar(e.operands[1], w)
        if abs(x - round(x.real)) < 1e-12:
            return b ** int(round(x.real))
        return complex(np.exp(x * np.log(b)))
    if n == 'BraKet':
        sub, v = ket(e.ket, w)
        sub2, u = ket(e.bra.ket, w)
        if v is None or u is None:
            return 0j
        if sub != sub2:
            raise SemError('braket between different spaces %s, %s' % (sub, sub2))
        return complex(np.vdot(u, v))
    if n == 'ScalarIndexedSum':
        return sum((scalar(e.term, w.with_idx(m)) for m in ranges_iter(e.ranges, w)), 0j)
    if n == 'ScalarDerivative':
        return _derivative(e, w, scalar)
    raise SemError('not a scalar: %r' % (e, ))


def argvals(e, w):
    return [scalar(a, w) for a in e.sym_args]


def symlabel(e, w):
    lb = e.label
    if isinstance(lb, SymbolicLabelBase):
        lb = w.render(lb)
    return str(lb)


def op(e, w, labels=None):
    """matrix of operator e on the tensor product of `labels` (default: all spaces of the world)"""
    labels = w.all if labels is None else labels
    if w.over:
        r = overridden(e, w)
        if r is not None:
            return op(r, w.with_over({}), labels)
    D = w.dim(labels)
    n = cname(e)
    if n == 'IdentityOperator':
        return np.eye(D, dtype=complex)
    if n == 'ZeroOperator':
        return np.zeros((D, D), complex)
    if n == 'OperatorSymbol':
        sub = w.labels_of(e.space)
        return w.embed(w.op_symbol(symlabel(e, w), argvals(e, w), sub), sub, labels)
    if n in ('LocalSigma', 'Create', 'Destroy', 'Phase', 'Displace', 'Squeeze', 'Jz', 'Jplus', 'Jminus'):
        sp = w.sp(e.space)
        N = sp.N
        if n == 'LocalSigma':
            j, k = w.level(e.j, sp), w.level(e.k, sp)
            m = np.zeros((N, N), complex)
            if j is not None and k is not None:
                m[j, k] = 1
        elif n == 'Create':
            m = ladder(N).conj().T
        elif n == 'Destroy':
            m = ladder(N)
        elif n == 'Phase':
            m = np.diag(np.exp(1j * scalar(e.args[0], w) * np.arange(N)))
        elif n == 'Displace':
            m = displace_mat(scalar(e.args[0], w), N)
        elif n == 'Squeeze':
            m = squeeze_mat(scalar(e.args[0], w), N)
        else:
            if sp.kind != 'S':
                raise SemError('spin operator on %r' % e.space)
            m = spin_mats(sp.js['s2'])[('Jz', 'Jplus', 'Jminus').index(n)]
        return w.embed(m, (sp.label, ), labels)
    if n == 'OperatorPlus':
        r = np.zeros((D, D), complex)
        for o in e.operands:
            r = r + op(o, w, labels)
        return r
    if n == 'OperatorTimes':
        r = None
        for o in e.operands:
            m = op(o, w, labels)
            r = m if r is None else r @ m
        return np.eye(D, dtype=complex) if r is None else r
    if n == 'ScalarTimesOperator':
        return scalar(e.coeff, w) * op(e.term, w, labels)
    if n == 'Adjoint':
        return op(e.operand, w, labels).conj().T
    if n == 'Commutator':
        a, b = (op(o, w, labels) for o in e.operands)
        return a @ b - b @ a
    if n == 'OperatorPlusMinusCC':
        m = op(e.operand, w, labels)
        return m + e.kwargs['sign'] * m.conj().T
    if n == 'OperatorTrace':
        over = w.labels_of(e.kwargs['over_space'])
        if not set(over) <= set(labels):
            # trace over factors outside of the requested ones: operate on the larger space
            big = w.sort(tuple(labels) + over)
        else:
            big = tuple(labels)
        m = op(e.operand, w, big)
        r = partial_trace_embedded(m, w, big, over)
        return restrict(r, w, big, labels)
    if n == 'PseudoInverse':
        return _pinv(op(e.operand, w, labels))
    if n == 'NullSpaceProjector':
        return kernel_projector(op(e.operand, w, labels))
    if n == 'OperatorIndexedSum':
        r = np.zeros((D, D), complex)
        for m in ranges_iter(e.ranges, w):
            r = r + op(e.term, w.with_idx(m), labels)
        return r
    if n == 'OperatorDerivative':
        return _derivative(e, w, lambda o, w2: op(o, w2, labels))
    if n == 'KetBra':
        sub, v = ket(e.ket, w)
        sub2, u = ket(e.bra.ket, w)
        if v is None or u is None:
            return np.zeros((D, D), complex)
        if sub != sub2:
            raise SemError('ketbra between different spaces')
        return w.embed(np.outer(v, u.conj()), sub, labels)
    if n == 'SuperOperatorTimesOperator':
        S = superop(e.sop, w, labels)
        X = op(e.op, w, labels)
        return (S @ X.reshape(-1)).reshape(D, D)
    if n in ('ScalarValue', 'Zero', 'One', 'ScalarPlus', 'ScalarTimes', 'ScalarPower', 'BraKet', 'ScalarIndexedSum',
             'ScalarDerivative') or isinstance(e, (int, float, complex, sympy.Basic)):
        raise SemError('expected an operator, got the scalar %r' % (e, ))
    raise SemError('not an operator: %r' % (e, ))


def partial_trace_embedded(m, w, labels, over):
    """tr_over(m) (x) identity on `over`"""
    if not over:
        return m
    ds = w.dims(labels)
    k = len(labels)
    t = m.reshape(ds + ds)
    rest = tuple(lb for lb in labels if lb not in over)
    ov = [labels.index(lb) for lb in over]
    rs = [labels.index(lb) for lb in rest]
    t = t.transpose(rs + ov + [k + i for i in rs] + [k + i for i in ov])
    dr, do = w.dim(rest), w.dim(over)
    t = t.reshape(dr, do, dr, do)
    r = np.einsum('abcb->ac', t)
    return w.embed(r, rest, labels) if rest else r[0, 0] * np.eye(w.dim(labels))


def restrict(m, w, big, labels):
    """m on big = (something on labels) (x) identity -> the something"""
    if tuple(big) == tuple(labels):
        return m
    out = tuple(lb for lb in big if lb not in labels)
    r = partial_trace_embedded(m, w, big, out) / w.dim(out)
    # now pick the (0,0) block of `out`
    ds = w.dims(big)
    k = len(big)
    t = r.reshape(ds + ds)
    idx = [slice(None) if lb in labels else 0 for lb in big]
    t = t[tuple(idx + idx)]
    D = w.dim(labels)
    return t.reshape(D, D)


def kernel_projector(m):
    u, s, vh = np.linalg.svd(m)
    tol = 1e-9 * max(1.0, s[0] if len(s) else 1.0)
    r = int((s > tol).sum())
    V = vh[r:].conj().T
    return V @ V.conj().T


def ket(e, w):
    """(labels, vector) of a ket; (None, None) for the zero ket"""
    if w.over:
        r = overridden(e, w)
        if r is not None:
            return ket(r, w.with_over({}))
    n = cname(e)
    if n == 'ZeroKet':
        return None, None
    if n == 'TrivialKet':
        return (), np.ones(1, complex)
    if n == 'BasisKet':
        sp = w.sp(e.space)
        i = w.level(e.args[0], sp)
        v = np.zeros(sp.N, complex)
        if i is not None:
            v[i] = 1
        return (sp.label, ), v
    if n == 'CoherentStateKet':
        sp = w.sp(e.space)
        return (sp.label, ), displace_mat(scalar(e.args[0], w), sp.N)[:, 0].copy()
    if n == 'KetSymbol':
        sub = w.labels_of(e.space)
        return sub, w.ket_symbol(symlabel(e, w), argvals(e, w), sub)
    if n == 'KetPlus':
        acc, lab = None, None
        for o in e.operands:
            sub, v = ket(o, w)
            if v is None:
                continue
            if acc is None:
                acc, lab = v, sub
            else:
                if sub != lab:
                    raise SemError('sum of kets over different spaces %s, %s' % (sub, lab))
                acc = acc + v
        return lab, acc
    if n == 'TensorKet':
        lab, acc = (), np.ones(1, complex)
        for o in e.operands:
            sub, v = ket(o, w)
            if v is None:
                return None, None
            if set(sub) & set(lab):
                raise SemError('tensor product of kets with overlapping spaces')
            acc = np.kron(acc, v)
            lab = lab + sub
        out = w.sort(lab)
        return out, w.reorder_vec(acc, lab, out)
    if n == 'ScalarTimesKet':
        sub, v = ket(e.term, w)
        if v is None:
            return None, None
        return sub, scalar(e.coeff, w) * v
    if n == 'OperatorTimesKet':
        sub, v = ket(e.ket, w)
        if v is None:
            return None, None
        return sub, op(e.operator, w, sub) @ v
    if n == 'KetIndexedSum':
        acc, lab = None, None
        for m in ranges_iter(e.ranges, w):
            sub, v = ket(e.term, w.with_idx(m))
            if v is None:
                continue
            if acc is None:
                acc, lab = v, sub
            else:
                if sub != lab:
                    raise SemError('sum of kets over different spaces')
                acc = acc + v
        return lab, acc
    if n == 'StateDerivative':
        box = {}

        def f(o, w2):
            sub, v = ket(o, w2)
            if v is None:
                raise SemError('derivative of the zero ket')
            box['s'] = sub
            return v
        r = _derivative(e, w, f)
        return box['s'], r
    if n == 'Bra':
        raise SemError('expected a ket, got the bra %r' % (e, ))
    raise SemError('not a ket: %r' % (e, ))


def superop(e, w, labels=None):
    labels = w.all if labels is None else labels
    if w.over:
        r = overridden(e, w)
        if r is not None:
            return superop(r, w.with_over({}), labels)
    D = w.dim(labels)
    n = cname(e)
    if n == 'IdentitySuperOperator':
        return np.eye(D * D, dtype=complex)
    if n == 'ZeroSuperOperator':
        return np.zeros((D * D, D * D), complex)
    if n == 'SuperOperatorSymbol':
        sub = w.labels_of(e.space)
        return w.embed_super(w.sop_symbol(symlabel(e, w), argvals(e, w), sub), sub, labels)
    if n == 'SPre':
        return np.kron(op(e.operands[0], w, labels), np.eye(D))
    if n == 'SPost':
        return np.kron(np.eye(D), op(e.operands[0], w, labels).T)
    if n == 'SuperOperatorPlus':
        r = np.zeros((D * D, D * D), complex)
        for o in e.operands:
            r = r + superop(o, w, labels)
        return r
    if n == 'SuperOperatorTimes':
        r = None
        for o in e.operands:
            m = superop(o, w, labels)
            r = m if r is None else r @ m
        return r
    if n == 'ScalarTimesSuperOperator':
        return scalar(e.coeff, w) * superop(e.term, w, labels)
    if n == 'SuperAdjoint':
        return super_adjoint(superop(e.operand, w, labels))
    if n == 'SuperOperatorDerivative':
        return _derivative(e, w, lambda o, w2: superop(o, w2, labels))
    raise SemError('not a super-operator: %r' % (e, ))


def super_adjoint(S):
    """documented: Tr[M (L N)] = Tr[(L* M) N] (bilinear, no complex conjugation)"""
    D = int(round(S.shape[0] ** 0.5))
    return S.T.reshape(D, D, D, D).transpose(1, 0, 3, 2).reshape(D * D, D * D)


def low_block_super(S, w, labels=None):
    """Liouville matrix restricted to the base levels of Fock spaces, in all four indices"""
    labels = w.all if labels is None else labels
    ds = w.dims(labels)
    idx = tuple(slice(0, w.by_label[lb].N if w.by_label[lb].finite else w.base) for lb in labels)
    t = S.reshape(ds * 4)[idx * 4]
    d = int(np.prod([s.stop for s in idx])) if labels else 1
    return t.reshape(d * d, d * d)


def op_or_scalar_matrix(x, w, labels=None):
    """Matrix element of a Matrix of operators: scalars are multiples of the identity"""
    labels = w.all if labels is None else labels
    if isinstance(x, (int, float, complex, np.number, sympy.Basic)) or cname(x) in (
            'ScalarValue', 'Zero', 'One', 'ScalarPlus', 'ScalarTimes', 'ScalarPower', 'BraKet', 'ScalarIndexedSum',
            'ScalarDerivative'):
        return scalar(x, w) * np.eye(w.dim(labels))
    return op(x, w, labels)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    scale = max(1.0, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
    return float(np.max(np.abs(a - b))) <= tol * scale


def low_block(m, w, labels=None):
    """restrict rows/cols of Fock spaces to the base levels (finite spaces kept)"""
    labels = w.all if labels is None else labels
    ds = w.dims(labels)
    idx = tuple(slice(0, w.by_label[lb].N if w.by_label[lb].finite else w.base) for lb in labels)
    if m.ndim == 1:
        return m.reshape(ds)[idx].reshape(-1)
    t = m.reshape(ds + ds)[idx + idx]
    d = int(np.prod([s.stop for s in idx])) if labels else 1
    return t.reshape(d, d)


def _pinv(a):
    from .prog import safe_pinv
    return safe_pinv(a)
