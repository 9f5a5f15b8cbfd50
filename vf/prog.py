"""Typed programs: JSON specs of formulas, their naive numeric value (ref_*) and their QNET construction (build_*).

ref_* never touches QNET objects; build_* uses public operators and constructors only.
"""
import functools
import operator as pyop

import numpy as np
import sympy

from . import env  # noqa
from .core import Discard
from . import sem
from .sem import World, num_sympy

from qnet.algebra.core.operator_algebra import (
    Commutator, IdentityOperator, LocalSigma, LocalProjector, NullSpaceProjector, OperatorPlus, OperatorPlusMinusCC, OperatorSymbol,
    OperatorTimes, OperatorTrace, PseudoInverse, ScalarTimesOperator, ZeroOperator, Adjoint)
from qnet.algebra.core.scalar_algebra import (
    One, ScalarPlus, ScalarPower, ScalarTimes, ScalarValue, Zero, sqrt as qsqrt)
from qnet.algebra.core.state_algebra import (
    BasisKet, Bra, BraKet, CoherentStateKet, KetBra, KetPlus, KetSymbol, OperatorTimesKet, ScalarTimesKet, TensorKet,
    TrivialKet, ZeroKet)
from qnet.algebra.core.super_operator_algebra import (
    IdentitySuperOperator, SPost, SPre, ScalarTimesSuperOperator, SuperAdjoint, SuperOperatorPlus, SuperOperatorSymbol,
    SuperOperatorTimes, SuperOperatorTimesOperator, ZeroSuperOperator, anti_commutator, commutator, lindblad, liouvillian)
from qnet.algebra.core.hilbert_space_algebra import ProductSpace
from qnet.algebra.library.fock_operators import Create, Destroy, Displace, Phase, Squeeze
from qnet.algebra.library.spin_algebra import Jminus, Jplus, Jz


def sym_of(name, kind):
    if kind == 'c':
        return sympy.Symbol(name)
    if kind == 'r':
        return sympy.Symbol(name, real=True)
    if kind == 'p':
        return sympy.Symbol(name, positive=True)
    raise ValueError(kind)


def fold(f, xs):
    return functools.reduce(f, xs)


class Prog:
    """Interpreter of specs in a world"""

    def __init__(self, world):
        self.w = world

    # ------------------------------------------------------------------ scalars
    # ["i", n] ["q", p, q] ["f", x] ["z", re, im]   numbers (with a form letter as last item: p python, s sympy, v ScalarValue)
    # ["sym", name, kind, form]   ["+", [..]] ["*", [..]] ["-", a, b] ["/", a, b] ["**", a, n] ["neg", a] ["conj", a]
    # ["exp", a] ["sqrt", a] ["bk", ket, ket]

    def ref_scalar(self, s):
        t = s[0]
        if t == 'i':
            return complex(s[1])
        if t == 'q':
            return complex(s[1] / s[2])
        if t == 'f':
            return complex(s[1])
        if t == 'z':
            return complex(s[1], s[2])
        if t == 'sym':
            return self.w.symval(sym_of(s[1], s[2]))
        if t == '+':
            return sum((self.ref_scalar(x) for x in s[1]), 0j)
        if t == '*':
            return fold(pyop.mul, [self.ref_scalar(x) for x in s[1]])
        if t == '-':
            return self.ref_scalar(s[1]) - self.ref_scalar(s[2])
        if t == '/':
            d = self.ref_scalar(s[2])
            if abs(d) < 1e-9:
                raise Discard('division by zero')
            return self.ref_scalar(s[1]) / d
        if t == '**':
            b = self.ref_scalar(s[1])
            if s[2] < 0 and abs(b) < 1e-9:
                raise Discard('division by zero')
            return b ** s[2]
        if t == 'neg':
            return -self.ref_scalar(s[1])
        if t == 'conj':
            return self.ref_scalar(s[1]).conjugate()
        if t == 'exp':
            return complex(np.exp(self.ref_scalar(s[1])))
        if t == 'sqrt':
            return complex(np.sqrt(self.ref_scalar(s[1]) + 0j))
        if t == 'bk':
            la, a = self.ref_ket(s[1])
            lb, b = self.ref_ket(s[2])
            return complex(np.vdot(a, b))
        if t == 'bok':       # <a|A|b>
            la, a = self.ref_ket(s[1])
            lb, b = self.ref_ket(s[3])
            return complex(np.vdot(a, self.op_on(s[2], lb) @ b))
        raise ValueError(s)

    @staticmethod
    def _form(val, form):
        if form == 'p':
            return val
        val = sympy.sympify(val)
        return ScalarValue.create(val) if form == 'v' else val

    def build_scalar(self, s):
        t = s[0]
        if t == 'i':
            return self._form(s[1], s[2])
        if t == 'q':
            v = sympy.Rational(s[1], s[2])
            return ScalarValue.create(v) if s[3] == 'v' else v
        if t == 'f':
            return self._form(s[1], s[2])
        if t == 'z':
            if s[3] == 'p':
                return complex(s[1], s[2])
            v = sympy.sympify(s[1]) + sympy.I * sympy.sympify(s[2])
            return ScalarValue.create(v) if s[3] == 'v' else v
        if t == 'sym':
            v = sym_of(s[1], s[2])
            return ScalarValue.create(v) if s[3] == 'v' else v
        if t == '+':
            return fold(pyop.add, [self.build_scalar(x) for x in s[1]])
        if t == '*':
            return fold(pyop.mul, [self.build_scalar(x) for x in s[1]])
        if t == '-':
            return self.build_scalar(s[1]) - self.build_scalar(s[2])
        if t == '/':
            return self._div(self.build_scalar(s[1]), self.build_scalar(s[2]))
        if t == '**':
            b = self.build_scalar(s[1])
            if isinstance(b, (int, float)) and not isinstance(b, bool):
                b = sympy.sympify(b)
            return b ** s[2]
        if t == 'neg':
            return -self.build_scalar(s[1])
        if t == 'conj':
            b = self.build_scalar(s[1])
            return b.conjugate()
        if t == 'exp':
            b = self.build_scalar(s[1])
            b = b.val if isinstance(b, ScalarValue) else b
            return sympy.exp(0 if b is Zero else 1 if b is One else b)
        if t == 'sqrt':
            b = self.build_scalar(s[1])
            return qsqrt(b)
        if t == 'bk':
            return self.build_ket(s[1]).dag() * self.build_ket(s[2])
        if t == 'bok':
            a, A, b = self.build_ket(s[1]).dag(), self.build_op(s[2]), self.build_ket(s[3])
            return (a * A) * b if s[4] else a * (A * b)
        raise ValueError(s)

    @staticmethod
    def _div(a, b):
        if isinstance(b, int):
            b = sympy.Integer(b)
        return a / b

    # ------------------------------------------------------------------ operators
    def hs(self, i):
        return self.w.spaces[i].hs

    def hs_of(self, idxs):
        return fold(pyop.mul, [self.hs(i) for i in idxs])

    def labels(self, idxs):
        return self.w.sort([self.w.spaces[i].label for i in idxs])

    def level_arg(self, i, lev, mode):
        """argument by which a level is given: index or label"""
        sp = self.w.spaces[i]
        if sp.kind == 'S' or (mode and sp.labels is not None):
            return sp.labels[lev]
        return lev

    def ref_op(self, s):
        w = self.w
        D = w.dim(w.all)
        t = s[0]
        if t == 'id':
            return np.eye(D, dtype=complex)
        if t == 'zero':
            return np.zeros((D, D), complex)
        if t == 'osym':
            sub = self.labels(s[2])
            vals = [self.ref_scalar(a) for a in s[3]] if len(s) > 3 else []
            return w.embed(w.op_symbol(s[1], vals, sub), sub, w.all)
        if t in ('create', 'destroy', 'phase', 'disp', 'sq', 'sigma', 'jz', 'jp', 'jm', 'proj'):
            sp = w.spaces[s[1]]
            N = sp.N
            if t == 'create':
                m = sem.ladder(N).conj().T
            elif t == 'destroy':
                m = sem.ladder(N)
            elif t == 'phase':
                m = np.diag(np.exp(1j * self.ref_scalar(s[2]) * np.arange(N)))
            elif t == 'disp':
                m = sem.displace_mat(self.ref_scalar(s[2]), N)
            elif t == 'sq':
                m = sem.squeeze_mat(self.ref_scalar(s[2]), N)
            elif t == 'sigma':
                m = np.zeros((N, N), complex)
                m[s[2], s[3]] = 1
            elif t == 'proj':
                m = np.zeros((N, N), complex)
                m[s[2], s[2]] = 1
            else:
                m = sem.spin_mats(sp.js['s2'])[('jz', 'jp', 'jm').index(t)]
            return w.embed(m, (sp.label, ), w.all)
        if t == 'oadd':
            return sum((self.ref_op(x) for x in s[1]), np.zeros((D, D), complex))
        if t == 'osub':
            return self.ref_op(s[1]) - self.ref_op(s[2])
        if t == 'omul':
            return fold(np.matmul, [self.ref_op(x) for x in s[1]])
        if t == 'opow':
            return np.linalg.matrix_power(self.ref_op(s[1]), s[2])
        if t == 'smul':
            return self.ref_scalar(s[1]) * self.ref_op(s[2])
        if t == 'muls':
            return self.ref_scalar(s[2]) * self.ref_op(s[1])
        if t == 'odiv':
            d = self.ref_scalar(s[2])
            if abs(d) < 1e-9:
                raise Discard('division by zero')
            return self.ref_op(s[1]) / d
        if t == 'adds':
            return self.ref_op(s[1]) + self.ref_scalar(s[2]) * np.eye(D)
        if t == 'neg':
            return -self.ref_op(s[1])
        if t == 'adj':
            return self.ref_op(s[1]).conj().T
        if t == 'comm':
            a, b = self.ref_op(s[1]), self.ref_op(s[2])
            return a @ b - b @ a
        if t == 'tr':
            return sem.partial_trace_embedded(self.ref_op(s[2]), w, w.all, self.labels(s[1]))
        if t == 'pmcc':
            a = self.ref_op(s[2])
            return a + s[1] * a.conj().T
        if t == 'pinv':
            return safe_pinv(self.ref_op(s[1]))
        if t == 'nsp':
            a = self.ref_op(s[1])
            safe_pinv(a)
            return sem.kernel_projector(a)
        if t == 'kb':
            la, a = self.ref_ket(s[1])
            lb, b = self.ref_ket(s[2])
            return w.embed(np.outer(a, b.conj()), la, w.all)
        if t == 'sopop':
            S = self.ref_sop(s[1])
            return (S @ self.ref_op(s[2]).reshape(-1)).reshape(D, D)
        raise ValueError(s)

    def build_op(self, s):
        t = s[0]
        if t == 'id':
            return IdentityOperator
        if t == 'zero':
            return ZeroOperator
        if t == 'osym':
            args = [self.build_scalar(a) for a in s[3]] if len(s) > 3 else []
            return OperatorSymbol(s[1], *args, hs=self.hs_of(s[2]))
        if t == 'create':
            return Create(hs=self.hs(s[1]))
        if t == 'destroy':
            return Destroy(hs=self.hs(s[1]))
        if t == 'phase':
            return Phase.create(self.build_scalar(s[2]), hs=self.hs(s[1]))
        if t == 'disp':
            return Displace.create(self.build_scalar(s[2]), hs=self.hs(s[1]))
        if t == 'sq':
            return Squeeze.create(self.build_scalar(s[2]), hs=self.hs(s[1]))
        if t == 'sigma':
            return LocalSigma.create(self.level_arg(s[1], s[2], s[4]), self.level_arg(s[1], s[3], s[4]), hs=self.hs(s[1]))
        if t == 'proj':
            return LocalProjector(self.level_arg(s[1], s[2], s[3]), hs=self.hs(s[1]))
        if t == 'jz':
            return Jz(hs=self.hs(s[1]))
        if t == 'jp':
            return Jplus(hs=self.hs(s[1]))
        if t == 'jm':
            return Jminus(hs=self.hs(s[1]))
        if t == 'oadd':
            xs = [self.build_op(x) for x in s[1]]
            return OperatorPlus.create(*xs) if len(s) > 2 and s[2] else fold(pyop.add, xs)
        if t == 'osub':
            return self.build_op(s[1]) - self.build_op(s[2])
        if t == 'omul':
            xs = [self.build_op(x) for x in s[1]]
            return OperatorTimes.create(*xs) if len(s) > 2 and s[2] else fold(pyop.mul, xs)
        if t == 'opow':
            return self.build_op(s[1]) ** s[2]
        if t == 'smul':
            return self.build_scalar(s[1]) * self.build_op(s[2])
        if t == 'muls':
            return self.build_op(s[1]) * self.build_scalar(s[2])
        if t == 'odiv':
            d = self.build_scalar(s[2])
            if isinstance(d, int):
                d = sympy.Integer(d)
            return self.build_op(s[1]) / d
        if t == 'adds':
            a, b = self.build_op(s[1]), self.build_scalar(s[2])
            return a + b if s[3] else b + a
        if t == 'neg':
            return -self.build_op(s[1])
        if t == 'adj':
            x = self.build_op(s[1])
            return Adjoint.create(x) if len(s) > 2 and s[2] else x.dag()
        if t == 'comm':
            return Commutator.create(self.build_op(s[1]), self.build_op(s[2]))
        if t == 'tr':
            return OperatorTrace.create(self.build_op(s[2]), over_space=self.hs_of(s[1]))
        if t == 'pmcc':
            return OperatorPlusMinusCC.create(self.build_op(s[2]), sign=s[1])
        if t == 'pinv':
            return PseudoInverse.create(self.build_op(s[1])) if len(s) > 2 and s[2] else self.build_op(s[1]).pseudo_inverse()
        if t == 'nsp':
            return NullSpaceProjector.create(self.build_op(s[1]))
        if t == 'kb':
            return self.build_ket(s[1]) * self.build_ket(s[2]).dag()
        if t == 'sopop':
            return self.build_sop(s[1]) * self.build_op(s[2])
        raise ValueError(s)

    # ------------------------------------------------------------------ kets (typed by their static set of spaces)
    def ket_spaces(self, s):
        t = s[0]
        if t == 'ksym':
            return frozenset(s[2])
        if t in ('bket', 'coh'):
            return frozenset([s[1]])
        if t == 'triv':
            return frozenset()
        if t == 'kadd':
            return self.ket_spaces(s[1][0])
        if t == 'ksub':
            return self.ket_spaces(s[1])
        if t == 'ktens':
            return frozenset().union(*[self.ket_spaces(x) for x in s[1]])
        if t in ('ksmul', 'opket'):
            return self.ket_spaces(s[2])
        if t in ('kmuls', 'kdiv', 'kneg', 'kdagdag'):
            return self.ket_spaces(s[1])
        if t == 'zket':
            return frozenset(s[1])
        if t == 'brop':
            return self.ket_spaces(s[1])
        if t == 'kbk':
            return self.ket_spaces(s[1])
        if t == 'bradd' or t == 'brasub':
            return self.ket_spaces(s[1])
        if t == 'bratens':
            return self.ket_spaces(s[1]) | self.ket_spaces(s[2])
        if t in ('brasmul', 'bramuls', 'bradiv', 'braneg'):
            return self.ket_spaces(s[1])
        raise ValueError(s)

    def ref_ket(self, s):
        """(labels, vector)"""
        w = self.w
        t = s[0]
        lab = self.labels(self.ket_spaces(s))
        if t == 'ksym':
            vals = [self.ref_scalar(a) for a in s[3]] if len(s) > 3 else []
            return lab, w.ket_symbol(s[1], vals, lab)
        if t == 'bket':
            v = np.zeros(w.spaces[s[1]].N, complex)
            v[s[2]] = 1
            return lab, v
        if t == 'coh':
            return lab, sem.displace_mat(self.ref_scalar(s[2]), w.spaces[s[1]].N)[:, 0]
        if t == 'triv':
            return (), np.ones(1, complex)
        if t == 'zket':
            return lab, np.zeros(w.dim(lab), complex)
        if t == 'kadd':
            return lab, sum(self.ref_ket(x)[1] for x in s[1])
        if t == 'ksub':
            return lab, self.ref_ket(s[1])[1] - self.ref_ket(s[2])[1]
        if t == 'ktens':
            cur, acc = (), np.ones(1, complex)
            for x in s[1]:
                lb, v = self.ref_ket(x)
                acc = np.kron(acc, v)
                cur = cur + lb
            return lab, w.reorder_vec(acc, cur, lab)
        if t == 'ksmul':
            return lab, self.ref_scalar(s[1]) * self.ref_ket(s[2])[1]
        if t == 'kmuls':
            return lab, self.ref_scalar(s[2]) * self.ref_ket(s[1])[1]
        if t == 'kdiv':
            d = self.ref_scalar(s[2])
            if abs(d) < 1e-9:
                raise Discard('division by zero')
            return lab, self.ref_ket(s[1])[1] / d
        if t == 'kneg':
            return lab, -self.ref_ket(s[1])[1]
        if t == 'kdagdag':
            return lab, self.ref_ket(s[1])[1]
        if t == 'opket':
            return lab, self.op_on(s[1], lab) @ self.ref_ket(s[2])[1]
        if t == 'brop':      # (<k| A)^dagger
            return lab, self.op_on(s[2], lab).conj().T @ self.ref_ket(s[1])[1]
        if t == 'kbk':       # (|a><b|) |c>
            la, a = self.ref_ket(s[1])
            return lab, a * np.vdot(self.ref_ket(s[2])[1], self.ref_ket(s[3])[1])
        if t == 'bradd':       # (<a| + <b|)^dagger etc: operations between bras
            return lab, self.ref_ket(s[1])[1] + self.ref_ket(s[2])[1]
        if t == 'brasub':
            return lab, self.ref_ket(s[1])[1] - self.ref_ket(s[2])[1]
        if t == 'bratens':
            return self.ref_ket(['ktens', [s[1], s[2]]])
        if t in ('brasmul', 'bramuls'):
            return lab, np.conj(self.ref_scalar(s[2])) * self.ref_ket(s[1])[1]
        if t == 'bradiv':
            d = self.ref_scalar(s[2])
            if abs(d) < 1e-9:
                raise Discard('division by zero')
            return lab, self.ref_ket(s[1])[1] / np.conj(d)
        if t == 'braneg':
            return lab, -self.ref_ket(s[1])[1]
        raise ValueError(s)

    def op_on(self, s, lab):
        """matrix of an operator spec on the spaces `lab` only (the operator acts trivially elsewhere)"""
        w2 = World.__new__(World)
        w2.__dict__.update(self.w.__dict__)
        w2.all = lab
        return Prog(w2).ref_op(s)

    def build_ket(self, s):
        t = s[0]
        if t == 'ksym':
            args = [self.build_scalar(a) for a in s[3]] if len(s) > 3 else []
            return KetSymbol(s[1], *args, hs=self.hs_of(s[2]))
        if t == 'bket':
            return BasisKet.create(self.level_arg(s[1], s[2], s[3]), hs=self.hs(s[1]))
        if t == 'coh':
            return CoherentStateKet.create(self.build_scalar(s[2]), hs=self.hs(s[1]))
        if t == 'triv':
            return TrivialKet
        if t == 'zket':
            return ZeroKet
        if t == 'kadd':
            xs = [self.build_ket(x) for x in s[1]]
            return KetPlus.create(*xs) if len(s) > 2 and s[2] else fold(pyop.add, xs)
        if t == 'ksub':
            return self.build_ket(s[1]) - self.build_ket(s[2])
        if t == 'ktens':
            xs = [self.build_ket(x) for x in s[1]]
            return TensorKet.create(*xs) if len(s) > 2 and s[2] else fold(pyop.mul, xs)
        if t == 'ksmul':
            return self.build_scalar(s[1]) * self.build_ket(s[2])
        if t == 'kmuls':
            return self.build_ket(s[1]) * self.build_scalar(s[2])
        if t == 'kdiv':
            d = self.build_scalar(s[2])
            if isinstance(d, int):
                d = sympy.Integer(d)
            return self.build_ket(s[1]) / d
        if t == 'kneg':
            return -self.build_ket(s[1])
        if t == 'kdagdag':
            return self.build_ket(s[1]).dag().dag()
        if t == 'opket':
            return self.build_op(s[1]) * self.build_ket(s[2])
        if t == 'brop':
            return (self.build_ket(s[1]).dag() * self.build_op(s[2])).dag()
        if t == 'kbk':
            return (self.build_ket(s[1]) * self.build_ket(s[2]).dag()) * self.build_ket(s[3])
        if t == 'bradd':
            a, b = self.build_ket(s[1]).dag(), self.build_ket(s[2]).dag()
            return (KetPlus.create(a, b) if s[3] else a + b).dag()
        if t == 'brasub':
            return (self.build_ket(s[1]).dag() - self.build_ket(s[2]).dag()).dag()
        if t == 'bratens':
            a, b = self.build_ket(s[1]).dag(), self.build_ket(s[2]).dag()
            return (TensorKet.create(a, b) if s[3] else a * b).dag()
        if t == 'brasmul':
            return (self.build_scalar(s[2]) * self.build_ket(s[1]).dag()).dag()
        if t == 'bramuls':
            return (self.build_ket(s[1]).dag() * self.build_scalar(s[2])).dag()
        if t == 'bradiv':
            d = self.build_scalar(s[2])
            if isinstance(d, int):
                d = sympy.Integer(d)
            return (self.build_ket(s[1]).dag() / d).dag()
        if t == 'braneg':
            return (-self.build_ket(s[1]).dag()).dag()
        raise ValueError(s)

    # ------------------------------------------------------------------ super-operators
    def ref_sop(self, s):
        w = self.w
        D = w.dim(w.all)
        E = np.eye(D)
        t = s[0]
        if t == 'sid':
            return np.eye(D * D, dtype=complex)
        if t == 'szero':
            return np.zeros((D * D, D * D), complex)
        if t == 'ssym':
            sub = self.labels(s[2])
            vals = [self.ref_scalar(a) for a in s[3]] if len(s) > 3 else []
            return w.embed_super(w.sop_symbol(s[1], vals, sub), sub, w.all)
        if t == 'pre':
            return np.kron(self.ref_op(s[1]), E)
        if t == 'post':
            return np.kron(E, self.ref_op(s[1]).T)
        if t == 'sadd':
            return sum((self.ref_sop(x) for x in s[1]), np.zeros((D * D, D * D), complex))
        if t == 'ssub':
            return self.ref_sop(s[1]) - self.ref_sop(s[2])
        if t == 'stimes':
            return fold(np.matmul, [self.ref_sop(x) for x in s[1]])
        if t == 'spow':
            return np.linalg.matrix_power(self.ref_sop(s[1]), s[2])
        if t == 'ssmul':
            return self.ref_scalar(s[1]) * self.ref_sop(s[2])
        if t == 'sdiv':
            d = self.ref_scalar(s[2])
            if abs(d) < 1e-9:
                raise Discard('division by zero')
            return self.ref_sop(s[1]) / d
        if t == 'sneg':
            return -self.ref_sop(s[1])
        if t == 'sadj':
            return sem.super_adjoint(self.ref_sop(s[1]))
        if t == 'scomm':
            a = self.ref_op(s[1])
            return np.kron(a, E) - np.kron(E, a.T)
        if t == 'sacomm':
            a = self.ref_op(s[1])
            return np.kron(a, E) + np.kron(E, a.T)
        if t == 'scomm2':
            a, b = self.ref_op(s[1]), self.ref_op(s[2])
            return np.kron(a, E) - np.kron(E, b.T)
        if t == 'lind':
            return self.ref_lind(self.ref_op(s[1]))
        if t == 'liou':
            h = self.ref_op(s[1])
            r = -1j * (np.kron(h, E) - np.kron(E, h.T))
            for x in s[2]:
                r = r + self.ref_lind(self.ref_op(x))
            return r
        raise ValueError(s)

    @staticmethod
    def ref_lind(c):
        D = c.shape[0]
        E = np.eye(D)
        n = c.conj().T @ c
        return np.kron(c, c.conj()) - 0.5 * np.kron(n, E) - 0.5 * np.kron(E, n.T)

    def build_sop(self, s):
        t = s[0]
        if t == 'sid':
            return IdentitySuperOperator
        if t == 'szero':
            return ZeroSuperOperator
        if t == 'ssym':
            args = [self.build_scalar(a) for a in s[3]] if len(s) > 3 else []
            return SuperOperatorSymbol(s[1], *args, hs=self.hs_of(s[2]))
        if t == 'pre':
            return SPre.create(self.build_op(s[1]))
        if t == 'post':
            return SPost.create(self.build_op(s[1]))
        if t == 'sadd':
            xs = [self.build_sop(x) for x in s[1]]
            return SuperOperatorPlus.create(*xs) if len(s) > 2 and s[2] else fold(pyop.add, xs)
        if t == 'ssub':
            return self.build_sop(s[1]) - self.build_sop(s[2])
        if t == 'stimes':
            xs = [self.build_sop(x) for x in s[1]]
            return SuperOperatorTimes.create(*xs) if len(s) > 2 and s[2] else fold(pyop.mul, xs)
        if t == 'spow':
            return self.build_sop(s[1]) ** s[2]
        if t == 'ssmul':
            return self.build_scalar(s[1]) * self.build_sop(s[2])
        if t == 'sdiv':
            d = self.build_scalar(s[2])
            if isinstance(d, int):
                d = sympy.Integer(d)
            return self.build_sop(s[1]) / d
        if t == 'sneg':
            return -self.build_sop(s[1])
        if t == 'sadj':
            return self.build_sop(s[1]).dag()
        if t == 'scomm':
            return commutator(self.build_op(s[1]))
        if t == 'sacomm':
            return anti_commutator(self.build_op(s[1]))
        if t == 'scomm2':
            return SPre.create(self.build_op(s[1])) - SPost.create(self.build_op(s[2]))
        if t == 'lind':
            return lindblad(self.build_op(s[1]))
        if t == 'liou':
            return liouvillian(self.build_op(s[1]), [self.build_op(x) for x in s[2]])
        raise ValueError(s)


def safe_pinv(a):
    u, s, vh = np.linalg.svd(a)
    smax = s[0] if len(s) else 0
    if smax < 1e-9:
        if smax > 1e-12:
            raise Discard('ill-conditioned')
        return np.zeros_like(a.conj().T)
    if any(1e-11 * smax < x < 1e-4 * smax for x in s):
        raise Discard('ill-conditioned')
    r = int((s > 1e-4 * smax).sum())
    return (vh[:r].conj().T / s[:r]) @ u[:, :r].conj().T


# ----------------------------------------------------------------------------- static facts about specs

LADDER = {'create': 1, 'destroy': 1}


def degree(s):
    """Bound on the number of ladder operators in any monomial of the expanded program"""
    if not isinstance(s, (list, tuple)) or not s:
        return 0
    t = s[0]
    if not isinstance(t, str):
        return sum(degree(x) for x in s)
    if t in LADDER:
        return 1
    if t == 'lind':
        return 2 * degree(s[1])
    if t == 'liou':
        return max([degree(s[1])] + [2 * degree(x) for x in s[2]])
    if t in ('oadd', 'kadd', 'sadd', '+'):
        return max([degree(x) for x in s[1]] or [0])
    if t in ('osub', 'ksub', 'ssub', '-'):
        return max(degree(s[1]), degree(s[2]))
    if t in ('omul', 'stimes', 'ktens', '*'):
        return sum(degree(x) for x in s[1])
    if t in ('opow', 'spow'):
        return s[2] * degree(s[1])
    tot = 0
    for x in s[1:]:
        tot += degree(x)
    return tot


def size(s):
    if not isinstance(s, (list, tuple)):
        return 0
    return (1 if s and isinstance(s[0], str) else 0) + sum(size(x) for x in s if isinstance(x, (list, tuple)))


def heads(s, acc=None):
    acc = set() if acc is None else acc
    if isinstance(s, (list, tuple)):
        if s and isinstance(s[0], str):
            acc.add(s[0])
        for x in s:
            heads(x, acc)
    return acc


def terms(s):
    """Bound on the number of terms of the fully expanded program (cases with too many are discarded: only their cost is large)"""
    if not isinstance(s, (list, tuple)) or not s:
        return 1
    t = s[0]
    if not isinstance(t, str):
        return max([terms(x) for x in s])
    if t in ('oadd', 'kadd', 'sadd', '+'):
        return sum(terms(x) for x in s[1])
    if t in ('osub', 'ksub', 'ssub', '-', 'bradd', 'brasub'):
        return terms(s[1]) + terms(s[2])
    if t == 'adds':
        return terms(s[1]) + 1
    if t in ('omul', 'stimes', 'ktens', '*'):
        r = 1
        for x in s[1]:
            r *= terms(x)
        return r
    if t in ('opow', 'spow', '**'):
        return terms(s[1]) ** max(1, abs(s[2]))
    if t in ('comm', 'scomm2'):
        return 2 * terms(s[1]) * terms(s[2])
    if t in ('pmcc', 'scomm', 'sacomm'):
        return 2 * terms(s[1 if t != 'pmcc' else 2])
    if t == 'lind':
        return 3 * terms(s[1]) ** 2
    if t == 'liou':
        return 2 * terms(s[1]) + sum(3 * terms(x) ** 2 for x in s[2])
    r = 1
    for x in s[1:]:
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], str):
            r *= terms(x)
    return r
