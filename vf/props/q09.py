"""Q09 Hilbert spaces"""
import sympy
from itertools import product as iproduct

from hypothesis import strategies as st

from .. import env  # noqa
from ..core import Discard, Property, ensure, fail
from ..gens import chance, pick, space_js

from qnet.algebra.core.exceptions import AlgebraError, BasisNotSetError
from qnet.algebra.core.hilbert_space_algebra import FullSpace, HilbertSpace, LocalSpace, ProductSpace, TrivialSpace
from qnet.algebra.core.operator_algebra import OperatorSymbol
from qnet.algebra.core.state_algebra import BasisKet, TensorKet, TrivialKet
from qnet.algebra.core.scalar_algebra import One, Zero
from qnet.algebra.library.spin_algebra import SpinSpace

PROP = Property('Q09', '')


# ---- model of a local space: a dict as made by gens.space_js
def build_ls(js):
    kw = {}
    if 'o' in js:
        kw['order_index'] = js['o']
    if 'ids' in js:
        kw['local_identifiers'] = dict(map(tuple, js['ids']))
    if js['k'] == 'S':
        if 'b' in js:
            kw['basis'] = tuple(js['b'])
        return SpinSpace(js['l'], spin=sympy.Rational(js['s2'], 2), **kw)
    if js['k'] == 'L':
        if 'b' in js:
            kw['basis'] = tuple(js['b'])
            if js.get('both'):
                kw['dimension'] = js['d']
        else:
            kw['dimension'] = js['d']
    return LocalSpace(js['l'], **kw)


def ls_basis(js):
    if 'b' in js:
        return list(js['b'])
    if js['k'] == 'S':
        out = []
        for i in range(js['s2'] + 1):
            m2 = -js['s2'] + 2 * i
            s = '+' if m2 > 0 else ('-' if m2 < 0 else '')
            out.append(s + (str(abs(m2) // 2) if m2 % 2 == 0 else '%d/2' % abs(m2)))
        return out
    if js['k'] == 'L':
        return [str(i) for i in range(js['d'])]
    return None


def ls_key(js):
    return (js.get('o', float('inf')), str(js['l']))


def ident(js):
    """what makes two local spaces the same"""
    b = ls_basis(js)
    return (js['k'] == 'S', js['l'], tuple(b) if b is not None else None, js.get('o'), tuple(map(tuple, js.get('ids', []))))


LABELS = ['1', '2', '10', 'a', 'b', 'q1', 'tls_1', 'z', 'A.b', '3+']


@st.composite
def pool_js(draw):
    n = pick(draw, [2, 3, 3, 4, 5, 1])
    labs = draw(st.permutations(LABELS))[:n]
    out = []
    for lb in labs:
        js = draw(space_js(lb, ['L', 'F', 'S'], maxdim=4))
        if js['k'] == 'L' and chance(draw, 1, 6):
            js['d'] = 1
            js.pop('b', None)
        if js['k'] == 'L' and 'b' in js and chance(draw, 1, 3):
            js['both'] = True
        if chance(draw, 1, 4):
            js['o'] = draw(st.integers(-2, 12))
        out.append(js)
    if chance(draw, 1, 5):
        # a second space with the same label, but different properties, or an identical copy
        js = dict(pick(draw, out))
        if chance(draw, 2, 3):
            js = draw(space_js(js['l'], ['L', 'F', 'S'], maxdim=4))
        out.append(js)
    return out


@st.composite
def tree(draw, n, depth):
    k = draw(st.integers(0, 11))
    if depth == 0 or k <= 2:
        if k == 0 and chance(draw, 1, 2):
            return ['triv']
        if k == 1 and chance(draw, 1, 3):
            return ['full']
        return ['l', draw(st.integers(0, n - 1))]
    if k <= 8:
        m = draw(st.integers(0, 4))
        return [pick(draw, ['tensor', 'mul', 'create']), [draw(tree(n, depth - 1)) for _ in range(m)]]
    return [pick(draw, ['and', 'rem', 'andop', 'remop']), draw(tree(n, depth - 1)), draw(tree(n, depth - 1))]


FULL = 'FULL'


class Undefined(Exception):
    pass


class Model:
    def __init__(self, pool):
        self.pool = pool
        ids = {}
        self.rep = []
        for i, js in enumerate(pool):
            self.rep.append(ids.setdefault(ident(js), i))
        self.qs = [build_ls(js) for js in pool]

    def ref(self, t):
        k = t[0]
        if k == 'l':
            return frozenset([self.rep[t[1]]])
        if k == 'triv':
            return frozenset()
        if k == 'full':
            return FULL
        if k in ('tensor', 'mul', 'create'):
            xs = [self.ref(x) for x in t[1]]
            if any(x == FULL for x in xs):
                return FULL
            return frozenset().union(*xs)
        a, b = self.ref(t[1]), self.ref(t[2])
        if k in ('and', 'andop'):
            return b if a == FULL else (a if b == FULL else a & b)
        if a == FULL:
            raise Undefined()
        return frozenset() if b == FULL else a - b

    def build(self, t):
        k = t[0]
        if k == 'l':
            return self.qs[t[1]]
        if k == 'triv':
            return TrivialSpace
        if k == 'full':
            return FullSpace
        if k in ('tensor', 'mul', 'create'):
            xs = [self.build(x) for x in t[1]]
            if k == 'create':
                return ProductSpace.create(*xs)
            if not xs:
                return TrivialSpace
            if k == 'tensor':
                return xs[0].tensor(*xs[1:])
            r = xs[0]
            for x in xs[1:]:
                r = r * x
            return r
        a, b = self.build(t[1]), self.build(t[2])
        if k == 'and':
            return a.intersect(b)
        if k == 'andop':
            return a & b
        if k == 'rem':
            return a.remove(b)
        return a / b

    def check(self, hs, m, what):
        """the space must be the canonical object for the set m"""
        if m == FULL:
            ensure(hs is FullSpace, '%s should be the full space, is %r', what, hs)
            ensure(not hs.has_basis, 'has_basis of FullSpace')
            for attr in ('dimension', 'basis_labels', 'basis_states'):
                try:
                    getattr(hs, attr)
                except BasisNotSetError:
                    continue
                fail('%s of FullSpace is defined', attr)
            return
        if not m:
            ensure(hs is TrivialSpace, '%s should be the trivial space, is %r', what, hs)
            ensure(hs.dimension == 1 and hs.has_basis and len(hs) == 0 and hs.local_factors == (), 'trivial space')
            return
        factors = sorted((self.pool[i] for i in m), key=ls_key)
        want = {self.qs[i] for i in m}
        ensure(len(want) == len(m), 'different local spaces compare equal: %s', want)
        if len(m) == 1:
            ensure(isinstance(hs, LocalSpace) and not isinstance(hs, ProductSpace), '%s should be a local space, is %r', what, hs)
        else:
            ensure(isinstance(hs, ProductSpace), '%s should be a product space, is %r', what, hs)
        got = hs.local_factors
        ensure(len(hs) == len(got) == len(m) and set(got) == want, '%s has factors %s, not %s', what, got, want)
        keys = [(o._order_index, o.label) for o in got]
        ensure(keys == [ls_key(js) for js in factors], '%s: factors %s are not in canonical order', what, got)
        bases = [ls_basis(self.pool[[i for i in m if self.qs[i] == f][0]]) for f in got]
        if all(b is not None for b in bases):
            ensure(hs.has_basis is True, '%s has no basis', what)
            dim = 1
            for b in bases:
                dim *= len(b)
            ensure(hs.dimension == dim and type(hs.dimension) is int, 'dimension of %s is %r, not %d', what, hs.dimension, dim)
            labels = tuple(','.join(c) for c in iproduct(*bases))
            ensure(hs.basis_labels == labels, 'basis labels of %s are %s, not %s', what, hs.basis_labels, labels)
        else:
            ensure(hs.has_basis is False, '%s should not have a basis', what)
            for f in (lambda: hs.dimension, lambda: hs.basis_labels, lambda: list(hs.basis_states)):
                try:
                    r = f()
                except BasisNotSetError:
                    continue
                fail('basis property %r of %s, which has no basis', r, what)
        for ls, js in ((self.qs[i], self.pool[i]) for i in m):
            ensure(ls.label == js['l'], 'label of %r', ls)
            if js['k'] == 'S':
                ensure(ls.spin == sympy.Rational(js['s2'], 2) and ls.multiplicity == js['s2'] + 1, 'spin of %r', ls)


def sub_rel(a, b):
    """(a is a subset of b)"""
    return b == FULL or (a != FULL and a <= b)


def check_pair(M, ha, ma, hb, mb):
    show = (ha, hb)
    eq = ma == mb
    ensure((ha == hb) is eq and (ha != hb) is (not eq), '%s == %s is %s' % (show + (ha == hb, )))
    if eq:
        ensure(hash(ha) == hash(hb), 'equal spaces with different hashes: %s, %s' % show)
        ensure(len({ha, hb}) == 1, 'equal spaces are different set elements')
    le = sub_rel(ma, mb)
    ge = sub_rel(mb, ma)
    checks = [
        ('<=', ha <= hb, le), ('>=', ha >= hb, ge), ('<', ha < hb, le and not eq), ('>', ha > hb, ge and not eq),
        ('is_tensor_factor_of', ha.is_tensor_factor_of(hb), le),
        ('is_strict_tensor_factor_of', ha.is_strict_tensor_factor_of(hb), le and not eq),
        ('is_strict_subfactor_of', ha.is_strict_subfactor_of(hb), le and not eq)]
    if FULL in (ma, mb):
        # documented: the full space is not disjoint with any other space, the trivial space is disjoint with any other
        # space; the pair of both is contradictory and left out
        if ma and mb:
            checks.append(('isdisjoint', ha.isdisjoint(hb), False))
    else:
        checks.append(('isdisjoint', ha.isdisjoint(hb), not (ma & mb)))
    for name, got, want in checks:
        ensure(bool(got) is want, '%s %s %s is %s, should be %s', ha, name, hb, got, want)


@st.composite
def lattice_case(draw):
    pool = draw(pool_js())
    n = len(pool)
    first = ['tensor', [['l', draw(st.integers(0, n - 1))] for _ in range(draw(st.integers(2, 4)))]]
    return {'pool': pool, 'trees': [first] + [draw(tree(n, 2)) for _ in range(draw(st.integers(1, 3)))]}


@PROP.part('lattice', lattice_case, quick=6000, rule='at least two expressions with two or more factors')
def _lattice(case):
    M = Model(case['pool'])
    items = []
    for t in case['trees']:
        try:
            m = M.ref(t)
        except Undefined:
            try:
                hs = M.build(t)
            except AlgebraError:
                continue
            # an inner removal may be hidden by an outer operation that does not need it: not in this model
            fail('removing from the full space gives %s in %s', hs, t)
        hs = M.build(t)
        M.check(hs, m, '%s = %s' % (t, hs))
        items.append((hs, m))
    for ha, ma in items:
        for hb, mb in items:
            check_pair(M, ha, ma, hb, mb)
            M.check(ha * hb, FULL if FULL in (ma, mb) else ma | mb, '%s * %s' % (ha, hb))
            ensure((ha * hb) == (hb * ha), 'tensor product is not commutative: %s, %s', ha, hb)
            M.check(ha & hb, mb if ma == FULL else (ma if mb == FULL else ma & mb), '%s & %s' % (ha, hb))
            if ma == FULL:
                try:
                    r = ha / hb
                except AlgebraError:
                    pass
                else:
                    fail('%s / %s = %s', ha, hb, r)
            else:
                M.check(ha / hb, frozenset() if mb == FULL else ma - mb, '%s / %s' % (ha, hb))
                # the pieces make up the whole again
                ensure(((ha / hb) * (ha & hb)) == ha, '(%s / %s) * (%s & %s) is not the first', ha, hb, ha, hb)
            for hc, mc in items:
                ensure(((ha * hb) * hc) == (ha * (hb * hc)), 'tensor product is not associative: %s, %s, %s', ha, hb, hc)
                ensure(((ha & hb) & hc) == (ha & (hb & hc)), 'intersection is not associative: %s, %s, %s', ha, hb, hc)
        # operators on the space
        if ma != FULL:
            A = OperatorSymbol('A', hs=ha)
            ensure(A.space == ha, 'space of an operator on %s is %s', ha, A.space)
            t = tuple(ha.local_factors)
            ensure(ProductSpace.create(*t[::-1]) == ha, 'product of the factors of %s', ha)
    nt = sum(1 for _, m in items if m != FULL and len(m) > 1) >= 2
    return {'nt': nt, 'tags': [t[0] for t in case['trees']], 'show': [str(h) for h, _ in items]}


@st.composite
def basis_case(draw):
    pool = draw(pool_js())
    n = len(pool)
    sel = draw(st.lists(st.integers(0, n - 1), min_size=0 if chance(draw, 1, 8) else 1, max_size=3))
    return {'pool': pool, 'sel': sel, 'n': draw(st.integers(-6, 6)), 'pick': draw(st.integers(0, 50)),
            'bad': pick(draw, ['x', '', '0', '1', '0,0', '-', '0,1,0', ',', 'g', '+1/2,0', '00'])}


def raises(f, excs, msg, *args):
    try:
        r = f()
    except excs:
        return
    fail(msg + ' gives %s', *(args + (r, )))


@PROP.part('basis', basis_case, quick=4000, rule='space of dimension > 2 with a basis')
def _basis(case):
    M = Model(case['pool'])
    m = frozenset(M.rep[i] for i in case['sel'])
    hs = ProductSpace.create(*[M.qs[i] for i in case['sel']])
    M.check(hs, m, str(case['sel']))
    by = {M.qs[i]: case['pool'][i] for i in m}
    jss = [by[f] for f in hs.local_factors]
    bases = [ls_basis(js) for js in jss]
    if any(b is None for b in bases):
        # infinite spaces: integer states only
        if len(jss) == 1:
            i = case['pick']
            k = hs.basis_state(i)
            ensure(k == BasisKet(i, hs=hs) and k.space == hs and k.index == i, 'basis state %d of %s', i, hs)
            raises(lambda: hs.basis_state(-1), IndexError, 'basis_state(-1) of %s', hs)
            raises(lambda: hs.basis_state('a'), BasisNotSetError, "basis_state('a') of %s", hs)
            if i + case['n'] >= 0:
                ensure(hs.next_basis_label_or_index(i, case['n']) == i + case['n'], 'next index')
            else:
                raises(lambda: hs.next_basis_label_or_index(i, case['n']), IndexError, 'next index of %d + %d', i, case['n'])
        else:
            raises(lambda: hs.basis_state('a'), (BasisNotSetError, KeyError), "basis_state('a') of %s", hs)
            raises(lambda: hs.basis_state(0), BasisNotSetError, 'basis_state(0) of %s', hs)
        return {'nt': False, 'tags': ['no basis'], 'show': str(hs)}
    D = 1
    for b in bases:
        D *= len(b)
    labels = [','.join(c) for c in iproduct(*bases)] if jss else ['0']
    ensure(list(hs.basis_labels) == labels, 'labels of %s', hs)
    states = list(hs.basis_states)
    ensure(len(states) == D == hs.dimension, 'number of basis states of %s', hs)
    local_spin = len(jss) == 1 and jss[0]['k'] == 'S'
    some = {0, D - 1, case['pick'] % D}
    for i, s in enumerate(states):
        ensure(s.space == hs, 'basis state %s is not in %s', s, hs)
        if i in some or D <= 8:
            by_label = hs.basis_state(labels[i])
            ensure(s == by_label, 'basis state %s of %s is %s, but number %d is %s', labels[i], hs, by_label, i, s)
            if not local_spin:
                by_index = hs.basis_state(i)
                ensure(s == by_index, 'basis state %d of %s is %s, not %s', i, hs, by_index, s)
            # against an independent construction
            parts = labels[i].split(',')
            want = TrivialKet
            for ls, lb in zip(hs.local_factors, parts):
                want = want * BasisKet(lb, hs=ls)
            ensure(s == want, 'basis state %s of %s is %s', labels[i], hs, s)
        for j in some:
            ip = states[j].dag() * s
            ensure(not jss or ip == (One if i == j else Zero), '<%s|%s> = %s', states[j], s, ip)
    # outside of the basis
    ex = (IndexError, )
    if not local_spin:
        for bad in (-1, D, D + 3, -D):
            raises(lambda: hs.basis_state(bad), ex, 'basis_state(%d) of %s', bad, hs)
    if case['bad'] not in labels:
        raises(lambda: hs.basis_state(case['bad']), KeyError, 'basis_state(%r) of %s', case['bad'], hs)
    n = case['n']
    if len(jss) == 1:
        js = jss[0]
        b = bases[0]
        i = case['pick'] % D
        if 0 <= i + n < D:
            ensure(hs.next_basis_label_or_index(b[i], n) == b[i + n], 'label %s + %d in %s', b[i], n, hs)
            nx = hs.next_basis_label_or_index(i, n)
            ensure(nx == (b[i + n] if js['k'] == 'S' else i + n), 'index %s + %d in %s is %s', i, n, hs, nx)
            if n == 1:
                ensure(hs.next_basis_label_or_index(b[i]) == b[i + 1], 'default increment')
                ensure(states[i].next() == states[i + 1], 'state after %s', states[i])
            ensure(states[i].next(n=n) == states[i + n], 'state %s + %d', states[i], n)
        else:
            raises(lambda: hs.next_basis_label_or_index(b[i], n), IndexError, 'label %s + %d in %s', b[i], n, hs)
            raises(lambda: hs.next_basis_label_or_index(i, n), IndexError, 'index %s + %d in %s', i, n, hs)
            z = states[i].next(n=n)
            from qnet.algebra.core.state_algebra import ZeroKet
            ensure(z == ZeroKet, 'state %s + %d is %s', states[i], n, z)
        if case['bad'] not in labels:
            raises(lambda: hs.next_basis_label_or_index(case['bad'], n), ValueError, 'next state of %r', case['bad'])
            raises(lambda: BasisKet(case['bad'], hs=hs), ValueError, 'BasisKet(%r) in %s', case['bad'], hs)
        for k, s in enumerate(states):
            ensure(s.index == k and s.label == b[k], 'index and label of %s', s)
    return {'nt': D > 2, 'tags': ['%d factors' % len(jss)], 'show': (str(hs), labels[:4])}


# ---- construction of local spaces: what is accepted and what is kept
@st.composite
def local_case(draw):
    d = draw(st.integers(1, 5))
    b = draw(st.lists(pick_label(), min_size=1, max_size=4, unique=True))
    return {'l': pick(draw, [0, 1, 17, 'a', 'q_1', 'rydberg', 'A.b', 'x-1', 'tls_(1)', 'a b', '', '_a', 'a_', 'a_b_c', 'a$', '1.5']),
            'd': pick(draw, [None, d, str(d), len(b)]), 'b': pick(draw, [None, b, None]), 'o': pick(draw, [None, 0, 3, -1, '2']),
            'ids': pick(draw, [None, {'Destroy': 'b'}, {'Destroy': 'b', 'Create': 'c'}])}


def pick_label():
    return st.sampled_from(['g', 'e', 'r', 0, 1, 2, 'x1', '+', '-'])


import re  # noqa
RX = re.compile(r'[A-Za-z0-9.+-]+(_[A-Za-z0-9().+-]+)?')


@PROP.part('local', local_case, quick=1500, rule='valid combination with a basis')
def _local(case):
    kw = {}
    for k, name in (('d', 'dimension'), ('b', 'basis'), ('o', 'order_index'), ('ids', 'local_identifiers')):
        if case[k] is not None:
            kw[name] = case[k]
    if 'basis' in kw:
        kw['basis'] = tuple(kw['basis'])
    ok = bool(RX.fullmatch(str(case['l'])))
    if case['d'] is not None and case['b'] is not None and int(case['d']) != len(case['b']):
        ok = False
    if case['b'] is not None and len({str(x) for x in case['b']}) != len(case['b']):
        raise Discard('ambiguous labels')
    try:
        hs = LocalSpace(case['l'], **kw)
    except ValueError:
        ensure(not ok, 'LocalSpace(%r, %s) is rejected', case['l'], kw)
        return {'nt': False, 'tags': ['rejected']}
    ensure(ok, 'LocalSpace(%r, %s) is accepted', case['l'], kw)
    ensure(hs.label == str(case['l']), 'label %s', hs.label)
    dim = int(case['d']) if case['d'] is not None else (len(case['b']) if case['b'] is not None else None)
    if dim is None:
        ensure(not hs.has_basis, 'has_basis')
    else:
        ensure(hs.has_basis and hs.dimension == dim, 'dimension %s', hs.dimension)
        b = tuple(str(x) for x in case['b']) if case['b'] is not None else tuple(str(i) for i in range(dim))
        ensure(hs.basis_labels == b, 'labels %s', hs.basis_labels)
    # the same space by other ways of saying it
    same = [LocalSpace(str(case['l']), **kw), LocalSpace(hs.label, **hs.kwargs), LocalSpace(hs.label, **hs.minimal_kwargs)]
    if 'basis' in kw:
        same.append(LocalSpace(case['l'], **dict(kw, dimension=len(kw['basis']))))
        same.append(LocalSpace(case['l'], **dict(kw, basis=list(map(str, kw['basis'])))))
    elif 'dimension' in kw:
        k2 = dict(kw, basis=tuple(range(int(kw['dimension']))))
        same.append(LocalSpace(case['l'], **k2))
    for s in same:
        ensure(s == hs and hash(s) == hash(hs) and not s < hs and s <= hs, '%r is not the same as %r', s, hs)
        ensure(s * hs == hs, 'product of %r with itself', hs)
    # each change makes a different space
    other = [LocalSpace('other', **kw), LocalSpace(case['l'], **dict(kw, order_index=7)),
             LocalSpace(case['l'], **dict(kw, local_identifiers={'Destroy': 'zz'})),
             LocalSpace(case['l'], **{k: v for k, v in dict(kw, dimension=9, basis=None).items()}),
             LocalSpace(case['l'], **{k: v for k, v in dict(kw, dimension=None, basis=('u', 'v', 'w')).items()})]
    for s in other:
        ensure(s != hs and not (s <= hs) and not (hs <= s), '%r and %r are the same', s, hs)
        ensure(s.isdisjoint(hs), '%r and %r are not disjoint', s, hs)
        ensure(len(s * hs) == 2, 'product %r', s * hs)
    return {'nt': dim is not None, 'tags': sorted(kw), 'show': repr(hs)}
