"""Q21 equations"""
from .. import env  # noqa
import re

import numpy as np
import sympy
from hypothesis import strategies as st

from .. import anyexpr as A, sem
from ..core import Discard, Property, ensure, fail, shown
from ..gens import chance, pick
from ..prog import sym_of
from .q12 import value

import qnet
from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.hilbert_space_algebra import FullSpace
from qnet.algebra.core.operator_algebra import OperatorSymbol
from qnet.algebra.core.scalar_algebra import ScalarValue
from qnet.algebra.core.state_algebra import KetSymbol
from qnet.algebra.core.super_operator_algebra import SuperOperatorSymbol
from qnet.algebra.toolbox.equation import Eq
from qnet.printing import ascii, latex, unicode

PROP = Property('Q21', '')
TAGS = [None, None, '1', 2, '*', 'a', '0', 'eq']


# ------------------------------------------------------------------ generation
@st.composite
def step(draw, kind):
    """one manipulation: [name, where, cont, tag, argument]"""
    t = pick(draw, ['apply', 'apply', 'lhs', 'rhs', 'rhs', 'mtd', 'mtdl', 'mtdr', 'mtdr', 'subs', 'tag', 'copy', 'add', 'sub', 'mul', 'rmul', 'radd', 'div', 'addeq', 'subeq',
                    'other'])
    cont = chance(draw, 2, 3)
    tag = pick(draw, TAGS)
    if t == 'apply':
        a = pick(draw, ['plus', 'twice', 'expand', 'adjoint', 'same', 'square', 'minus', 'args', 'simplify', 'square'])
    elif t in ('lhs', 'rhs'):
        a = pick(draw, ['expand', 'simplify', 'same', 'plus0', 'args1'])
    elif t == 'mtd':
        a = pick(draw, ['expand', 'adjoint', 'simplify_scalar', 'substitute', 'diff'])
    elif t in ('mtdl', 'mtdr'):
        a = pick(draw, ['expand', 'simplify_scalar', 'substitute0'])
    elif t == 'subs':
        a = pick(draw, ['y', 'z', 'yz', 'X'])
    elif t in ('add', 'sub', 'radd'):
        a = pick(draw, ['n', 'X', 'y'] if kind in 'ops' else ['X'])
    elif t in ('mul', 'rmul'):
        a = pick(draw, ['n', 'X', 'y'] if kind in 'ops' else ['n', 'y'])
    elif t == 'div':
        a = pick(draw, ['n', 'z'])
    else:
        a = None
    return [t, cont, tag, a]


@st.composite
def history_case(draw):
    case = draw(A.any_case('oooookkbpsssi', depth=(0, 1, 1, 2), post=False, spaces=('L', 'S', 'F', 'L'), maxD=6))
    if case['kind'] not in 'ic':
        case['e'] = A.depend(draw, case['e'])
    k = case['kind']
    if k == 'p' and len(str(case['e'])) > 160:
        case['e'] = ['sadd', [['pre', ['osym', 'A', [0], [['sym', 'y', 'r', 's']]]], ['ssym', 'S', [0]]], 0]
    case['start'] = pick(draw, ['expand', 'same', 'plus', 'half', 'plus', 'wrong', 'wrong', 'simplify'])
    case['swap'] = draw(st.booleans())
    case['tag'] = pick(draw, TAGS)
    case['steps'] = draw(st.lists(step('o' if k == 'i' else k), min_size=1, max_size=7))
    return case


# ------------------------------------------------------------------ model
class Model:
    """the lines of the equation: (left, right, tag), left None when not repeated"""

    def __init__(self, lhs, rhs, tag, lines=()):
        self.left, self.rhs, self.tag = lhs, rhs, int(tag) if isinstance(tag, str) and tag.isdigit() else tag
        self.lines = list(lines)

    @property
    def lhs(self):
        left = [l[0] for l in self.lines] + [self.left]
        return [x for x in left if x is not None][-1]

    def next(self, left, rhs, tag, cont, keep=False):
        """keep: the left side is known not to change"""
        if not cont:
            return Model(self.lhs if left is None else left, rhs, tag)
        return Model(left, rhs, tag, self.lines + [(self.left, self.rhs, self.tag)])

    def all(self):
        return self.lines + [(self.left, self.rhs, self.tag)]


def snapshot(q):
    return (q._lhs, q._rhs, q._tag, list(q._prev_lhs), list(q._prev_rhs), list(q._prev_tags))


def same_obj(a, b):
    return a is b or (type(a) is type(b) and a == b)


def X_of(e):
    k = A.kind_of(e)
    hs = e.space if hasattr(e, 'space') else None
    if k == 's':
        return ScalarValue.create(sympy.Symbol('x0', real=True))
    if k in 'kb':
        r = KetSymbol('R', hs=hs)
        return r.dag() if k == 'b' else r
    from qnet.algebra.core.hilbert_space_algebra import TrivialSpace
    if hs is TrivialSpace:
        return None
    return OperatorSymbol('R', hs=hs) if k == 'o' else SuperOperatorSymbol('R', hs=hs)


def render_expected(m, f):
    rows = []
    for l, r, t in m.all():
        rows.append(('' if l is None else f(l), f(r), '' if t is None else f(t)))
    return rows


def check_eq(q, m, what):
    ensure(same_obj(q.lhs, m.lhs), '%s: the left side is %s, expected %s', what, q.lhs, m.lhs)
    ensure(same_obj(q.rhs, m.rhs), '%s: the right side is %s, expected %s', what, q.rhs, m.rhs)
    ensure(q.tag == m.tag and type(q.tag) is type(m.tag), '%s: the tag is %r, expected %r', what, q.tag, m.tag)
    lhs, rhs = m.lhs, m.rhs
    ensure(q.as_dict == {lhs: rhs}, '%s: as_dict is %s', what, q.as_dict)
    ensure(q == Eq(lhs, rhs) and (2 * rhs == rhs or not q == Eq(lhs, 2 * rhs)), '%s: equality with a new equation', what)
    for a in ('free_symbols', 'bound_symbols', 'all_symbols'):
        ensure(getattr(q, a) == getattr(lhs, a, set()) | getattr(rhs, a, set()), '%s: %s of %s = %s is %s', what, a, lhs, rhs, getattr(q, a))


def check_text(q, m, what):
    for name, f, g in (('str', str, str), ('repr', repr, repr), ('ascii', ascii, lambda x: ascii(x)), ('unicode', unicode, lambda x: unicode(x))):
        text = f(q)
        rows = render_expected(m, f if name in ('str', 'repr') else g)
        if any('\n' in x for r in rows for x in r):
            continue
        lines = text.split('\n')
        ensure(len(lines) == len(rows), '%s: %s gives %d lines for %d:\n%s', what, name, len(lines), len(rows), text)
        from qnet.utils.unicode import grapheme_len
        w = max(grapheme_len(r[0]) for r in rows)
        w2 = max(grapheme_len(r[1]) for r in rows)
        for line, (l, r, t) in zip(lines, rows):
            exp = ' ' * (w - grapheme_len(l)) + l + ' = ' + r
            if t:
                exp += ' ' * (w2 - grapheme_len(r)) + '    (' + t + ')'
            ensure(line == exp.rstrip(), '%s: %s gives the line %r, expected %r', what, name, line, exp.rstrip())
    text = latex(q)
    rows = render_expected(m, latex)
    ensure(q._repr_latex_() == text, '%s: _repr_latex_ differs', what)
    if len(rows) == 1:
        exp = r'\begin{equation}' + '\n  %s = %s\n' % rows[0][:2] + (r'\tag{%s}' % (m.tag, ) + '\n' if m.tag is not None else '') + r'\end{equation}'
    else:
        exp = r'\begin{align}'
    got = re.sub(r'\s+', '', text)
    if len(rows) == 1:
        ensure(got == re.sub(r'\s+', '', exp), '%s: LaTeX gives %s, expected %s', what, text, exp)
    else:
        body = got[len(r'\begin{align}'):-len(r'\end{align}')]
        exp = r'\\'.join(l + '&=' + r + (r'\tag{%s}' % (t, ) if t is not None else '') for (l, r, _), (_, _, t) in zip(rows, m.all()))
        ensure(got.startswith(r'\begin{align}') and got.endswith(r'\end{align}') and body == re.sub(r'\s+', '', exp), '%s: LaTeX gives %s, expected %s', what, text, exp)


@PROP.part('history', history_case, quick=2800,
           rule='at least two manipulations are applied; after each, both sides, tags, history, display and all earlier equations are compared with a model')
def history(case):
    w = A.world(case)
    e = A.build(case, w)
    if A.nodes(e) > 60:
        raise Discard('cost')
    k = A.kind_of(e)
    y, z = sym_of('y', 'r'), sym_of('z', 'p')
    if k in 'kb' and e.space is FullSpace:
        raise Discard('the zero ket')
    X = X_of(e)
    how = case['start']
    try:
        r = {'expand': lambda: e.expand(), 'same': lambda: e, 'plus': lambda: e + X - X if X is not None else e, 'half': lambda: (e + e) / 2,
             'wrong': lambda: e + X if X is not None else 2 * e, 'simplify': lambda: e.simplify_scalar() if k not in 'c' else e}[how]()
    except NotImplementedError:
        raise Discard('addition of indexed sums')
    except Exception as exc:
        if k in 'cm':
            raise Discard('not a quantum expression')
        raise
    if not isinstance(r, Expression) or A.kind_of(r) != k:
        raise Discard('a number')
    lhs, rhs = (r, e) if case['swap'] else (e, r)
    tag = case['tag']
    q, m = Eq(lhs, rhs, tag=tag), Model(lhs, rhs, tag)
    if case['swap'] and chance_of(case):
        q = Eq(lhs=lhs, rhs=rhs).set_tag(tag)
    kept = []
    steps = 0
    tags = [k]
    lin = True      # sides still of equal values, if they were
    for t, cont, tag, a in case['steps']:
        kept.append((q, m, snapshot(q), str(q)))
        what = '%s %s of %s' % (t, a, str(q).replace('\n', ' ; '))
        try:
            r = manipulate(q, m, t, cont, tag, a, X, y, z, k, kept)
        except NotImplementedError:
            raise Discard('addition of indexed sums')
        if r is None:
            kept.pop()
            continue
        q, m = r
        steps += 1
        tags.append(t + ' ' + str(a))
        if not isinstance(m.lhs, Expression) or not isinstance(m.rhs, Expression) or {A.kind_of(m.lhs), A.kind_of(m.rhs)} - set(k):
            raise Discard('a number')
        k = A.kind_of(m.lhs)
        if A.nodes(m.lhs) + A.nodes(m.rhs) > 200:
            break
        try:
            check_eq(q, m, what)
        except NotImplementedError:
            raise Discard('addition of indexed sums')
        for q0, m0, snap, text in kept:
            now = snapshot(q0)
            ensure(len(now) == len(snap) and all(x is y_ or (isinstance(x, list) and len(x) == len(y_) and all(p is s for p, s in zip(x, y_))) for x, y_ in zip(now, snap)),
                   '%s changes an earlier equation from %s to %s', what, text, str(q0))
    check_text(q, m, 'after %s' % tags)
    for q0, m0, snap, text in kept:
        ensure(str(q0) == text, 'the display of an earlier equation changes from %s to %s', text, str(q0))
    # the equation holds if it held in the beginning
    verified(m, q, case, w, k, how)
    return {'nt': steps > 1, 'tags': tags + [how], 'show': str(q)[:200]}


def chance_of(case):
    return len(case['steps']) % 2 == 0


def verified(m, q, case, w, k, how):
    try:
        d = q.verify()
        f = q.verify(lambda x, n, p=0: (x, n, p), 3, p=4)
    except NotImplementedError:
        raise Discard('addition of indexed sums')
    ensure(isinstance(f, tuple) and f[1:] == (3, 4) and f[0] == d, 'verify(func) gives %s', f)
    if k == 'b' and q.lhs.ket.space != q.rhs.ket.space:
        return
    le, re_ = m.lhs.expand().simplify_scalar(), m.rhs.expand().simplify_scalar()
    if le == re_:
        ensure(getattr(d, 'is_zero', d == 0), 'verifying %s = %s gives %s', q.lhs, q.rhs, d)
    if max(A.nodes(q.lhs), A.nodes(q.rhs)) > 100 or any('Derivative' in c for c in A.classes(q.lhs) + A.classes(q.rhs)) or not (0 < len(str(d)) < 3000):
        return
    vl, vr = value(q.lhs, w), value(q.rhs, w)
    vd = value(d, w) if isinstance(d, Expression) else ('s', np.array(complex(d)))
    if vl[0] != vr[0] or any(v[0] in 'kb' and v[1] is None for v in (vl, vr)):
        return
    x, y = (v[1][1] if v[0] in 'kb' else v[1] for v in (vl, vr))
    big = max(np.max(np.abs(x)), np.max(np.abs(y)), 1)
    if big > 1e5:
        return
    zero = np.max(np.abs(x - y)) < 1e-7 * big
    if how != 'wrong':
        ensure(zero, 'the equation %s = %s does not hold any more', q.lhs, q.rhs)
    if getattr(d, 'is_zero', False):
        ensure(zero, 'verifying %s = %s gives zero', q.lhs, q.rhs)
    if vd[0] == vl[0] and not (vd[0] in 'kb' and vd[1] is None):
        u = vd[1][1] if vd[0] in 'kb' else vd[1]
        if u.shape == x.shape:
            ensure(np.max(np.abs(u - (x - y))) < 1e-6 * big, 'verifying %s = %s gives %s', q.lhs, q.rhs, d)


KNOWN = {'expression-plus-equation': lambda part, case, exc: 'an equation with right side 0 or 1 is not an equation' in str(exc)}


def manipulate(q, m, t, cont, tag, a, X, y, z, k, kept):
    """the same on the equation and on the model; None if not applicable"""
    from qnet.algebra.core.abstract_algebra import substitute
    lhs, rhs = m.lhs, m.rhs
    if X is not None and (getattr(X, 'isbra', None) != getattr(lhs, 'isbra', None)):
        X = X.adjoint()
    if X is not None and k in 'kb' and X.space != lhs.space:
        X = None
    kw = {}
    if tag is not None:
        kw['tag'] = tag
    if cont or len(kept) % 2:
        kw['cont'] = cont
    if t in ('apply', 'lhs', 'rhs'):
        if a in ('square', ) and (k not in 'os' or A.nodes(lhs) + A.nodes(rhs) > 14):
            return None
        if a in ('plus', 'minus') and X is None:
            return None
        if a in ('expand', 'adjoint', 'simplify', 'square') and k == 'p' and A.nodes(lhs) > 25:
            return None
        f = {'plus': lambda e: e + X, 'minus': lambda e: X - e, 'twice': lambda e: 2 * e, 'expand': lambda e: e.expand(), 'adjoint': lambda e: e.adjoint(),
             'same': lambda e: e, 'square': lambda e: e * e, 'simplify': lambda e: e.simplify_scalar(), 'plus0': lambda e: e + X - X if X is not None else e,
             'args': lambda e, c, n=1: e * c * n, 'args1': lambda e, c, n=0: e * c if c != 1 else e}[a]
        args, fkw = ((2, ), {'n': 3}) if a == 'args' else ((1, ), {'n': 2}) if a == 'args1' else ((), {})
        if t == 'apply':
            nl, nr = f(lhs, *args, **fkw), f(rhs, *args, **fkw)
            return q.apply(f, *args, **fkw, **kw), m.next(None if cont and nl == lhs else nl, nr, tag, cont)
        if t == 'lhs':
            return q.apply_to_lhs(f, *args, **fkw, **kw), m.next(f(lhs, *args, **fkw), rhs, tag, cont)
        return q.apply_to_rhs(f, *args, **fkw, **kw), m.next(None if cont else lhs, f(rhs, *args, **fkw), tag, cont)
    if t in ('mtd', 'mtdl', 'mtdr'):
        if k == 'p' and A.nodes(lhs) > 25:
            return None
        if a == 'diff' and (k not in 'oks' or any('Derivative' in c or 'Sum' in c for c in A.classes(lhs) + A.classes(rhs)) or A.nodes(lhs) > 25):
            return None
        name = 'substitute' if a.startswith('substitute') else a
        args = {'substitute': ({y: z}, ), 'substitute0': ({sympy.Symbol('unused'): 1}, ), 'diff': (y, )}.get(a, ())
        fkw = {}
        if a == 'substitute' and cont:
            args, fkw = (), {'var_map': args[0]}
        f = lambda e: getattr(e, name)(*args, **fkw)
        if t == 'mtd':
            nl, nr = f(lhs), f(rhs)
            return q.apply_mtd(name, *args, **fkw, **kw), m.next(None if cont and nl == lhs else nl, nr, tag, cont)
        if t == 'mtdl':
            return q.apply_mtd_to_lhs(name, *args, **fkw, **kw), m.next(f(lhs), rhs, tag, cont)
        return q.apply_mtd_to_rhs(name, *args, **fkw, **kw), m.next(None if cont else lhs, f(rhs), tag, cont)
    if t == 'subs':
        if a == 'X' and X is None:
            return None
        mapping = {'y': {y: z}, 'z': {z: sympy.Rational(1, 2)}, 'yz': {y: z, z: y}, 'X': {X: 2 * X if X is not None else 0} if k != 's' else {X.val: 2 * X.val}}[a]
        nl, nr = substitute(lhs, mapping), substitute(rhs, mapping)
        return q.substitute(mapping, **kw), m.next(None if cont and nl == lhs else nl, nr, tag, cont)
    if t == 'tag':
        n = q.set_tag(tag)
        return n, Model(m.left, m.rhs, tag, m.lines)
    if t == 'copy':
        n = q.copy()
        ensure(n is not q and n == q, 'a copy of %s', q)
        return n, Model(m.left, m.rhs, m.tag, m.lines)
    arg = {'n': 2, 'X': X, 'y': y, 'z': z}.get(a)
    if t in ('add', 'sub', 'mul', 'rmul', 'div', 'radd'):
        if arg is None or a == 'X' and k in 'kb' and t in ('mul', 'rmul'):
            return None
        if a in 'ny' and t in ('add', 'sub', 'radd') and k not in 'ops':
            return None
        f = {'add': lambda e, x: e + x, 'radd': lambda e, x: x + e, 'sub': lambda e, x: e - x, 'mul': lambda e, x: e * x, 'rmul': lambda e, x: x * e,
             'div': lambda e, x: e / x}[t]
        r = f(q, arg)
        if not isinstance(r, Eq):
            if t in ('radd', 'rmul') and a == 'X' and (rhs == 0 or rhs == 1):
                fail('an expression %s an equation with right side 0 or 1 is not an equation', {'radd': 'plus', 'rmul': 'times'}[t])
            fail('%s %s %s gives %r', q, t, arg, r)
        return r, Model(f(lhs, arg), f(rhs, arg), None)
    if t in ('addeq', 'subeq'):
        o, mo = kept[len(kept) // 2][:2]
        if A.kind_of(mo.lhs) != k or A.kind_of(mo.rhs) != k or A.nodes(mo.lhs) + A.nodes(lhs) > 80 or k in 'kb' and (mo.lhs.space != lhs.space or mo.rhs.space != rhs.space):
            return None
        f = (lambda a_, b: a_ + b) if t == 'addeq' else (lambda a_, b: a_ - b)
        return f(q, o), Model(f(lhs, mo.lhs), f(rhs, mo.rhs), None)
    if t == 'other':
        # equations of the same sides are equal, whatever their history
        ensure(q == Eq(q.lhs, q.rhs, tag='other') and Eq(q.lhs, q.rhs) == q, '%s differs from a new equation', q)
        ensure(q == q.rhs or A.kind_of(rhs) != k, 'comparison of %s with its right side', q)
        ensure(not (q == Eq(q.lhs, 4 * q.rhs)) or 4 * rhs == rhs, '%s is equal to a different equation', q)
        return q, m
    raise ValueError(t)
