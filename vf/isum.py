"""Indexed sums: a small language of terms with index symbols, its meaning (term-by-term expansion into index-free programs of
vf.prog) and its construction with QNET."""
import sympy
from itertools import product as iproduct

from hypothesis import strategies as st

from . import env  # noqa
from .core import Discard
from .gens import chance, pick, scalar_leaf, fixkinds
from .prog import Prog

from qnet.algebra.core.abstract_quantum_algebra import Sum
from qnet.algebra.core.operator_algebra import LocalSigma, OperatorSymbol
from qnet.algebra.library.fock_operators import Create, Destroy
from qnet.algebra.core.scalar_algebra import KroneckerDelta, ScalarValue
from qnet.algebra.core.state_algebra import BasisKet, KetSymbol
from qnet.algebra.library.spin_algebra import Jz, Jplus, Jminus
from qnet.utils.indices import FockIndex, FockLabel, IdxSym, SpinIndex, StrLabel

NAMES = ['i', 'j', 'k', 'n']


def idx_value(e, env):
    k = e[0]
    if k == 'n':
        return e[1]
    if k == 'ix':
        return env[e[1]]
    if k == '+':
        return idx_value(e[1], env) + idx_value(e[2], env)
    if k == '*':
        return idx_value(e[1], env) * idx_value(e[2], env)
    raise ValueError(e)


def idx_sympy(e):
    k = e[0]
    if k == 'n':
        return sympy.Integer(e[1])
    if k == 'ix':
        return IdxSym(e[1])
    if k == '+':
        return idx_sympy(e[1]) + idx_sympy(e[2])
    return idx_sympy(e[1]) * idx_sympy(e[2])


class ISum:
    def __init__(self, world):
        self.w = world
        self.p = Prog(world)

    # ------------------------------------------------------------ meaning
    def values(self, rng):
        if rng[0] == 'fock':
            return list(range(self.w.spaces[rng[1]].N))
        if rng[0] == 'list':
            return list(rng[1])
        a, b, s = rng[1:]
        return list(range(a, b + 1 if s > 0 else b - 1, s))

    def expand(self, binders, body, env):
        """instantiated bodies"""
        names = [b[0] for b in binders]
        for combo in iproduct(*[self.values(b[1]) for b in binders]):
            yield self.inst(body, dict(env, **dict(zip(names, combo))))

    def inst(self, s, env):
        """index-free program with the same meaning for the given index values"""
        k = s[0]
        rec = lambda x: self.inst(x, env)  # noqa
        # scalars
        if k == 'sc':
            return s[1]
        if k == 'ix':
            return ['i', idx_value(s[1], env), 'p']
        if k == 'sqrt':
            return ['sqrt', ['i', idx_value(s[1], env), 'p']]
        if k == 'xpow':
            return ['**', ['sym', s[1], 'c', 's'], idx_value(s[2], env)]
        if k == 'el':
            return ['sym', '%s_%d' % (s[1], idx_value(s[2], env)), 'c', 's']
        if k == 'kd':
            return ['i', int(idx_value(s[1], env) == idx_value(s[2], env)), 'p']
        if k == 'smul2':
            return ['*', [rec(x) for x in s[1]]]
        if k == 'sadd2':
            return ['+', [rec(x) for x in s[1]]]
        if k == 'spow':
            return ['**', rec(s[1]), s[2]]
        if k == 'sconj':
            return ['conj', rec(s[1])]
        if k == 'bk':
            return ['bk', rec(s[1]), rec(s[2])]
        if k == 'bok':
            return ['bk', rec(s[1]), ['opket', rec(s[2]), rec(s[3])]]
        if k == 'ssum':
            t = list(self.expand(s[1], s[2], env))
            return ['+', t] if t else ['i', 0, 'p']
        # kets
        if k == 'kb':
            return ['bket', s[1], idx_value(s[2], env), 0]
        if k == 'ksy':
            return ['ksym', s[1] if s[3] is None else '%s_%d' % (s[1], env[s[3]]), s[2]]
        if k == 'kt':
            return ['ktens', [rec(x) for x in s[1]], 0]
        if k == 'ka':
            return ['kadd', [rec(x) for x in s[1]], 0]
        if k == 'ks':
            return ['ksmul', rec(s[1]), rec(s[2])]
        if k == 'ok':
            return ['opket', rec(s[1]), rec(s[2])]
        if k == 'ksum':
            t = list(self.expand(s[1], s[2], env))
            if not t:
                raise Discard('empty sum of kets')
            return ['kadd', t, 0]
        if k == 'kdd':
            return rec(s[1])
        # operators
        if k == 'os':
            return ['osym', s[1] if s[3] is None else '%s_%d' % (s[1], env[s[3]]), s[2]]
        if k == 'oarg':
            return ['osym', s[1], s[2], [rec(x) for x in s[3]]]
        if k == 'og':
            return ['sigma', s[1], idx_value(s[2], env), idx_value(s[3], env), 0]
        if k == 'ol':
            return [s[1], s[2]]
        if k == 'om':
            return ['omul', [rec(x) for x in s[1]], 0]
        if k == 'oa':
            return ['oadd', [rec(x) for x in s[1]], 0]
        if k == 'osc':
            return ['smul', rec(s[1]), rec(s[2])]
        if k == 'ocs':
            return ['smul', rec(s[2]), rec(s[1])]
        if k == 'oadj':
            return ['adj', rec(s[1]), 0]
        if k == 'kbra':
            return ['kb', rec(s[1]), rec(s[2])]
        if k == 'osum':
            t = list(self.expand(s[1], s[2], env))
            return ['oadd', t, 0] if t else ['zero']
        raise ValueError(k)

    # ------------------------------------------------------------ construction
    def lev(self, i, e):
        sp = self.w.spaces[i]
        x = idx_sympy(e)
        if not any(isinstance(s, IdxSym) for s in x.free_symbols):
            return self.p.level_arg(i, int(x), 0)
        if sp.kind == 'S':
            return SpinIndex(x - sympy.Rational(sp.js['s2'], 2), hs=sp.hs)
        if sp.js.get('fl') and sp.finite:
            return FockLabel(x, hs=sp.hs)
        return FockIndex(x)

    def rng_args(self, rng):
        if rng[0] == 'fock':
            return (self.w.spaces[rng[1]].hs, )
        if rng[0] == 'list':
            return (tuple(rng[1]), )
        return tuple(rng[1:]) if rng[3] != 1 else tuple(rng[1:3])

    def sum(self, binders, body):
        r = self.build(body)
        for name, rng in reversed(binders):
            r = Sum(IdxSym(name), *self.rng_args(rng))(r)
        return r

    def label(self, base, name):
        if name is None:
            return base
        return StrLabel(sympy.IndexedBase(base)[IdxSym(name)])

    def build(self, s):
        k = s[0]
        b = self.build
        if k == 'sc':
            return self.p.build_scalar(s[1])
        if k == 'ix':
            return ScalarValue.create(idx_sympy(s[1]))
        if k == 'sqrt':
            return ScalarValue.create(sympy.sqrt(idx_sympy(s[1])))
        if k == 'xpow':
            return ScalarValue.create(sympy.Symbol(s[1]) ** idx_sympy(s[2]))
        if k == 'el':
            return ScalarValue.create(sympy.IndexedBase(s[1])[idx_sympy(s[2])])
        if k == 'kd':
            return KroneckerDelta(idx_sympy(s[1]), idx_sympy(s[2]))
        if k in ('smul2', 'om', 'kt'):
            r = b(s[1][0])
            for x in s[1][1:]:
                r = r * b(x)
            return r
        if k in ('sadd2', 'ka', 'oa'):
            r = b(s[1][0])
            for x in s[1][1:]:
                r = r + b(x)
            return r
        if k == 'spow':
            return b(s[1]) ** s[2]
        if k == 'sconj':
            return b(s[1]).conjugate()
        if k == 'bk':
            return b(s[1]).dag() * b(s[2])
        if k == 'bok':
            return b(s[1]).dag() * (b(s[2]) * b(s[3])) if s[4] else (b(s[1]).dag() * b(s[2])) * b(s[3])
        if k in ('ssum', 'ksum', 'osum'):
            return self.sum(s[1], s[2])
        if k == 'kdd':
            return b(s[1]).dag().dag()
        if k == 'kb':
            return BasisKet(self.lev(s[1], s[2]), hs=self.w.spaces[s[1]].hs)
        if k == 'ksy':
            return KetSymbol(self.label(s[1], s[3]), hs=self.p.hs_of(s[2]))
        if k in ('ks', 'osc', 'ok', 'ocs'):
            return b(s[1]) * b(s[2])
        if k == 'os':
            return OperatorSymbol(self.label(s[1], s[3]), hs=self.p.hs_of(s[2]))
        if k == 'oarg':
            return OperatorSymbol(s[1], *[b(x) for x in s[3]], hs=self.p.hs_of(s[2]))
        if k == 'og':
            return LocalSigma(self.lev(s[1], s[2]), self.lev(s[1], s[3]), hs=self.w.spaces[s[1]].hs)
        if k == 'ol':
            return {'create': Create, 'destroy': Destroy, 'jz': Jz, 'jp': Jplus, 'jm': Jminus}[s[1]](hs=self.w.spaces[s[2]].hs)
        if k == 'oadj':
            return b(s[1]).dag()
        if k == 'kbra':
            return b(s[1]) * b(s[2]).dag()
        raise ValueError(k)


# ---------------------------------------------------------------- generation
class Scope:
    """names in scope -> set of values"""

    def __init__(self, vals=None, bound=()):
        self.vals = dict(vals or {})
        self.bound = set(bound)

    def extend(self, name, values):
        s = Scope(self.vals, self.bound | {name})
        s.vals[name] = tuple(values)
        return s

    def level_names(self, nlev):
        """indices that run over all levels of a space with nlev levels (or have a fixed value inside)"""
        return [n for n, v in self.vals.items() if set(v) == set(range(nlev))
                or (n not in self.bound and len(v) == 1 and 0 <= v[0] < nlev)]

    def names(self):
        return list(self.vals)

    def nonneg(self):
        return [n for n, v in self.vals.items() if all(x >= 0 for x in v)]


class Gen:
    def __init__(self, spaces, nlev, ladder=True):
        # ladder: use the ladder operators of Fock spaces; then, no bound index labels a Fock state, as the finite ranges used here
        # do not contain the labels that the ladder operators lead to
        self.spaces, self.nlev, self.ladder = spaces, nlev, ladder

    def level(self, draw, i, sc):
        names = sc.level_names(self.nlev[i])
        if self.spaces[i]['k'] == 'F' and self.ladder:
            names = [n for n in names if n not in sc.bound]
        if names and chance(draw, 4, 5):
            return ['ix', pick(draw, names)]
        return ['n', draw(st.integers(0, self.nlev[i] - 1))]

    def ixexpr(self, draw, sc, nonneg=False):
        names = sc.nonneg() if nonneg else sc.names()
        if not names:
            return ['n', draw(st.integers(0, 2))]
        x = ['ix', pick(draw, names)]
        c = draw(st.integers(0, 5))
        if c == 0:
            return ['+', x, ['n', 1]]
        if c == 1:
            return ['+', x, ['ix', pick(draw, names)]]
        if c == 2:
            return ['*', ['n', 2], x]
        return x

    def scalar(self, draw, sc, depth=1):
        c = draw(st.integers(0, 9))
        if c <= 1 or not sc.names():
            return ['sc', fixkinds(draw(scalar_leaf()))]
        if c <= 3:
            return ['ix', self.ixexpr(draw, sc)]
        if c == 4 and sc.nonneg():
            return ['sqrt', self.ixexpr(draw, sc, True)]
        if c == 5 and sc.nonneg():
            return ['xpow', 'x', self.ixexpr(draw, sc, True)]
        if c == 6 and sc.nonneg():
            return ['el', 'c', ['ix', pick(draw, sc.nonneg())]]
        if c == 7:
            # deltas only between indices over the same values
            groups = {}
            for n, v in sc.vals.items():
                groups.setdefault(tuple(sorted(v)), []).append(n)
            g = [x for x in groups.values() if len(x) > 1]
            if g:
                x = pick(draw, g)
                a = pick(draw, x)
                return ['kd', ['ix', a], ['ix', pick(draw, [y for y in x if y != a])]]
        if depth > 0:
            if c == 8:
                return ['smul2', [self.scalar(draw, sc, depth - 1) for _ in range(2)]]
            return ['sconj', ['ix', self.ixexpr(draw, sc)]]
        return ['ix', self.ixexpr(draw, sc)]

    def binders(self, draw, sp, sc, maxn=2):
        """sp: spaces whose basis is a good range"""
        out = []
        n = pick(draw, [1, 1, 2]) if maxn > 1 else 1
        names = draw(st.permutations(NAMES[:3]))
        for nm in names[:n]:
            c = draw(st.integers(0, 9))
            fin = [i for i in sp if self.spaces[i]['k'] != 'F']
            if fin and c <= 4:
                rng = ['fock', pick(draw, fin)]
                vals = range(self.nlev[rng[1]])
            elif sp and c <= 6:
                m = self.nlev[pick(draw, list(sp))]
                rng = pick(draw, [['list', list(range(m))], ['range', 0, m - 1, 1], ['range', m - 1, 0, -1], ['list', list(range(m))[::-1]]])
                vals = range(m)
            elif c <= 8:
                v = draw(st.lists(st.integers(-1, 3), min_size=1, max_size=3, unique=True))
                rng = ['list', v]
                vals = v
            else:
                a = draw(st.integers(-1, 2))
                s = pick(draw, [1, 2])
                rng = ['range', a, a + draw(st.integers(0, 3)), s]
                vals = range(a, rng[2] + 1, s)
            out.append([nm, rng])
            sc = sc.extend(nm, vals)
        return out, sc

    def ket(self, draw, sp, sc, depth, sums=True):
        sp = list(sp)
        if depth > 0:
            c = draw(st.integers(0, 11))
            if sums and c <= 4:
                b, sc2 = self.binders(draw, sp, sc)
                return ['ksum', b, self.ket(draw, sp, sc2, depth - 1, sums=chance(draw, 1, 4))]
            if c == 5:
                return ['ka', [self.ket(draw, sp, sc, depth - 1, False) for _ in range(2)]]
            if c <= 7:
                return ['ks', self.scalar(draw, sc), self.ket(draw, sp, sc, depth - 1, sums)]
            if c == 8:
                return ['ok', self.op(draw, sp, sc, depth - 1, sums), self.ket(draw, sp, sc, depth - 1, sums)]
            if c == 9:
                return ['kdd', self.ket(draw, sp, sc, depth - 1, sums)]
            if len(sp) > 1:
                k = draw(st.integers(1, len(sp) - 1))
                return ['kt', [self.ket(draw, sp[:k], sc, depth - 1, sums), self.ket(draw, sp[k:], sc, depth - 1, sums)]]
        if len(sp) > 1:
            if chance(draw, 1, 5):
                return self.ksym(draw, sp, sc)
            return ['kt', [self.ket(draw, [i], sc, 0) for i in sp]]
        if chance(draw, 1, 4):
            return self.ksym(draw, sp, sc)
        return ['kb', sp[0], self.level(draw, sp[0], sc)]

    def ksym(self, draw, sp, sc):
        nn = sc.nonneg()
        return ['ksy', pick(draw, ['Psi', 'Phi']), sp, pick(draw, nn) if nn and chance(draw, 1, 2) else None]

    def op_leaf(self, draw, sp, sc):
        i = pick(draw, sp)
        c = draw(st.integers(0, 9))
        k = self.spaces[i]['k']
        if c <= 3:
            return ['og', i, self.level(draw, i, sc), self.level(draw, i, sc)]
        if c <= 5 and (k == 'S' or (k == 'F' and self.ladder)):
            return ['ol', pick(draw, ['create', 'destroy'] if k == 'F' else ['jz', 'jp', 'jm']), i]
        nn = sc.nonneg()
        if c == 6 and sc.names():
            return ['oarg', 'B', [i], [self.scalar(draw, sc, 0)]]
        return ['os', 'A', [i], pick(draw, nn) if nn and chance(draw, 2, 3) else None]

    def op(self, draw, sp, sc, depth, sums=True):
        sp = list(sp)
        if depth > 0:
            c = draw(st.integers(0, 12))
            if sums and c <= 4:
                b, sc2 = self.binders(draw, sp, sc)
                return ['osum', b, self.op(draw, sp, sc2, depth - 1, sums=chance(draw, 1, 4))]
            if c == 5:
                return ['oa', [self.op(draw, sp, sc, depth - 1, False) for _ in range(2)]]
            if c <= 7:
                return [*pick(draw, [['osc', self.scalar(draw, sc), self.op(draw, sp, sc, depth - 1, sums)],
                                     ['ocs', self.op(draw, sp, sc, depth - 1, sums), self.scalar(draw, sc)]])]
            if c <= 9:
                return ['om', [self.op(draw, sp, sc, depth - 1, sums) for _ in range(2)]]
            if c == 10:
                return ['oadj', self.op(draw, sp, sc, depth - 1, sums)]
            k = sp[:1] if chance(draw, 1, 2) else sp
            return ['kbra', self.ket(draw, k, sc, depth - 1, sums), self.ket(draw, k, sc, depth - 1, sums)]
        return self.op_leaf(draw, sp, sc)

    def sc_expr(self, draw, sp, sc, depth, sums=True):
        sp = list(sp)
        if depth > 0:
            c = draw(st.integers(0, 9))
            if sums and c <= 3:
                b, sc2 = self.binders(draw, sp, sc)
                return ['ssum', b, self.sc_expr(draw, sp, sc2, depth - 1, sums=chance(draw, 1, 4))]
            if c <= 5:
                return ['bk', self.ket(draw, sp, sc, depth - 1, sums), self.ket(draw, sp, sc, depth - 1, sums)]
            if c == 6:
                return ['bok', self.ket(draw, sp, sc, depth - 1, sums), self.op(draw, sp, sc, depth - 1, sums),
                        self.ket(draw, sp, sc, depth - 1, sums), draw(st.integers(0, 1))]
            if c == 7:
                return ['smul2', [self.sc_expr(draw, sp, sc, depth - 1, sums) for _ in range(2)]]
            if c == 8:
                return ['spow', self.sc_expr(draw, sp, sc, depth - 1, sums), draw(st.integers(0, 3))]
            return ['sconj', self.sc_expr(draw, sp, sc, depth - 1, sums)]
        return self.scalar(draw, sc)


def n_terms(s, isum, mult=1):
    """number of term instantiations (cost bound)"""
    if not isinstance(s, list):
        return 0
    if s and s[0] in ('ssum', 'ksum', 'osum'):
        m = 1
        for b in s[1]:
            m *= len(isum.values(b[1]))
        return m * max(1, n_terms(s[2], isum))
    if s and s[0] == 'spow':
        return max(1, n_terms(s[1], isum)) ** max(1, s[2])
    subs = [n_terms(x, isum) for x in s if isinstance(x, list)]
    r = 1
    for x in subs:
        r *= max(1, x)
    return r


def n_sums(s):
    if not isinstance(s, list):
        return 0
    return int(bool(s) and s[0] in ('ssum', 'ksum', 'osum')) + sum(n_sums(x) for x in s)
