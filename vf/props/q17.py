"""Q17 source representation"""
from .. import env  # noqa
import numpy
import numpy as np
import sympy
from hypothesis import strategies as st

import qnet
from .. import anyexpr as A
from ..core import Discard, Property, ensure, shown
from ..gens import chance, pick

from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.hilbert_space_algebra import HilbertSpace
from qnet.algebra.core.scalar_algebra import One, Scalar, ScalarValue, Zero
from qnet.printing import srepr
from qnet.utils.indices import IdxSym

PROP = Property('Q17', '')


def namespace():
    ns = {}
    exec('from sympy import *', ns)
    ns.update({k: getattr(numpy, k) for k in ('array', 'float64', 'complex128', 'int64', 'int32', 'nan')})
    ns.update({k: getattr(qnet, k) for k in qnet.__all__})
    # only the SymPy class of this name occurs in a representation
    ns['KroneckerDelta'] = sympy.KroneckerDelta
    from sympy.physics.quantum import Dagger     # importing it renames SymPy's adjoint
    ns['Dagger'] = Dagger
    ns.pop('__builtins__', None)
    return ns


NS = namespace()


def everything(e):
    """sub-expressions, spaces and scalars in an expression"""
    out = []
    seen = set()

    def rec(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                rec(y)
            return
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, (Expression, sympy.Basic)):
            out.append(x)
        if isinstance(x, Expression):
            for y in A.children(x):
                rec(y)
            for y in list(x.args) + list(x.kwargs.values()):
                rec(y)
    rec(e)
    return out


def same_thing(a, b):
    """equal, of the same type, and so are all the parts"""
    if type(a) is not type(b):
        # Python and NumPy numbers, SymPy numbers and Python numbers count as the same thing when equal
        # (so does a scalar that wraps one)
        return all(isinstance(x, Scalar) or not isinstance(x, Expression) for x in (a, b)) and bool(a == b) and hash(a) == hash(b)
    if not (a == b) or a != b:
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_thing(x, y) for x, y in zip(a, b))
    if isinstance(a, Expression):
        if hash(a) != hash(b) or len(a.args) != len(b.args) or list(a.kwargs) != list(b.kwargs):
            return False
        if hasattr(a, 'matrix'):
            return a.matrix.shape == b.matrix.shape and all(same_thing(x, y) for x, y in zip(a.matrix.ravel(), b.matrix.ravel()))
        return all(same_thing(x, y) for x, y in zip(list(a.args) + list(a.kwargs.values()), list(b.args) + list(b.kwargs.values())))
    return True


def evaluate(text, names=()):
    try:
        return eval(text, dict(NS, **dict(names)))
    except Exception as exc:
        ensure(False, 'the representation cannot be evaluated (%r): %s', exc, text)


def roundtrip(e, sel=None, what='expression'):
    for x in everything(e):
        if isinstance(x, sympy.Basic):
            try:
                ok = eval(sympy.srepr(x), dict(NS)) == x
            except Exception:
                ok = isinstance(x, IdxSym) or x.atoms(IdxSym)
            if not ok:
                raise Discard('SymPy does not recreate its own expression')
    for indented in (False, True):
        t = srepr(e, indented=indented)
        r = evaluate(t)
        ensure(same_thing(r, e), '%srepresentation of %s evaluates to %r: %s', 'indented ' if indented else '', what, r, t)
        if indented:
            flat = ' '.join(t.split())
            ensure('\n\n' not in t and flat, 'blank lines in %s', t)
        else:
            ensure('\n' not in t, 'more than one line: %s', t)
    if not sel:
        return
    parts = [x for x in everything(e) if x is not e and isinstance(x, Expression) and not (isinstance(x, ScalarValue) or x is One or x is Zero)]
    if not parts:
        return
    names = {}
    for i in sel:
        x = parts[i % len(parts)]
        if not any(x == y for y in names.values()):
            names['v%d' % len(names)] = x
    for indented in (False, True):
        cache = {v: k for k, v in names.items()}
        t = srepr(e, indented=indented, cache=cache)
        r = evaluate(t, names.items())
        ensure(bool(r == e), '%srepresentation with names for %s evaluates to %r instead of %s: %s', 'indented ' if indented else '',
               names, r, e, t)
        # the cache now holds the rendering of every sub-expression
        t2 = srepr(e, indented=indented, cache=cache)
        ensure(bool(evaluate(t2, names.items()) == e), 'second %srepresentation with the same cache: %s', 'indented ' if indented else '', t2)
        for x in parts[:6]:
            if isinstance(x, Expression):
                t3 = srepr(x, indented=indented, cache=cache)
                ensure(bool(evaluate(t3, names.items()) == x), '%srepresentation of the part %s with the cache of the whole: %s',
                       'indented ' if indented else '', x, t3)


@st.composite
def any_src(draw):
    case = draw(A.any_case('oookkbppsscmi', depth=(0, 1, 1, 2), amp=True, coh=True))
    if chance(draw, 1, 3) and case['kind'] not in 'ic':
        case['e'] = A.depend(draw, case['e'])
    case['sel'] = draw(st.lists(st.integers(0, 40), min_size=1, max_size=4))
    return case


@PROP.part('any', any_src, quick=4000, rule='expressions of every kind: plain and indented, with and without names for parts')
def any_(case):
    w = A.world(case)
    e = A.build(case, w)
    roundtrip(e, case['sel'])
    return {'nt': A.nodes(e) >= 3, 'tags': A.classes(e), 'show': shown(e)}


# ------------------------------------------------------------------ atoms with unusual labels and arguments
WORDS = ['A', 'Psi', 'a_1', 'alpha', 'A_1,2', 'q_(1)', 'A_b.c', 'a_+-', 'Lambda_0', 'B12', 'in', 'lambda', 'E', 'I', 'None']


@st.composite
def atom_case(draw):
    num = lambda: pick(draw, [['i', draw(st.integers(-5, 5))], ['f', draw(st.sampled_from([0.5, -1.25, 1e-12, 3.0, 1e300, 0.1, 2.5e-7]))],
                              ['c', draw(st.sampled_from([0.5, -2.0])), draw(st.sampled_from([1.0, -0.25, 0.0]))], ['npf', 0.75], ['npi', 3], ['npc', 0.5, 1.5],
                              ['npi', -4],
                              ['e', draw(st.sampled_from(['x', 'x*y', 'exp(I*x)', 'sqrt(2)/2', 'x**2+1', 'sqrt(x)', 'conjugate(z)', 'pi*I', 'Rational(2,3)',
                                                          'Float("0.1")', 'factorial(n)', 'KroneckerDelta(n, m)', 'sin(x)**2', 'E', 'log(x)', 'x/y', 'Abs(z)', 're(z)',
                                                          'oo', 'Float("1e-30")', 'Integer(3)', 'i1', 'i2 + 1', 'D1', 'D1*x', 'xp', 'T[i1]']))]])
    space = lambda: pick(draw, [['l', pick(draw, ['0', '1', 'q1', 'a_b', "A"]), draw(st.sampled_from([None, 2, 3, ['g', 'e'], ['0', 'x_1', 'α'], ])), draw(st.sampled_from([None, None, 0, 5, -1, ['a', 3]]))],
                                ['l', draw(st.sampled_from([0, 1, 7])), None, None],
                                ['li', 0, None, draw(st.sampled_from([None, ['create', 'b'], ['destroy', 'c_1', 'create', 'c_2'], ['phase', 'Ph']]))],
                                ['s', pick(draw, ['s', '2']), draw(st.sampled_from([1, 2, 3])), draw(st.booleans())]])
    t = pick(draw, ['op', 'op', 'ket', 'sop', 'scalar', 'scalar', 'space', 'prod', 'sig', 'basis', 'idx', 'range', 'circ', 'comp', 'perm', 'loc', 'loc', 'jz', 'opdif', 'numsc'])
    return {'t': t, 'w': pick(draw, WORDS), 'a': [num() for _ in range(draw(st.integers(0, 3)))] if t in ('op', 'ket', 'sop', 'opdif', 'circ') else [num()],
            's': [space(), space()][:draw(st.integers(1, 2))], 'n': draw(st.integers(0, 3)), 'm': draw(st.integers(0, 3)),
            'k': pick(draw, ['Create', 'Destroy', 'Phase', 'Displace', 'Squeeze']), 'asm': pick(draw, [{}, {'positive': True}, {'integer': True}, {'real': True}]),
            'pr': draw(st.integers(0, 3)), 'p': draw(st.permutations([0, 1, 2, 3])), 'cls': pick(draw, ['IdxSym', 'FockIndex', 'StrLabel', 'SpinIndex', 'FockLabel', 'IntIndex'])}


def number(a):
    t = a[0]
    x = sympy.Symbol('x', positive=True)
    if t == 'i':
        return a[1]
    if t == 'f':
        return a[1]
    if t == 'c':
        return complex(a[1], a[2])
    if t == 'npf':
        return np.float64(a[1])
    if t == 'npi':
        return np.int64(a[1])
    if t == 'np32':
        return np.int32(a[1])
    if t == 'npc':
        return np.complex128(complex(a[1], a[2]))
    from qnet import IdxSym
    i1, i2 = IdxSym('i', integer=True), IdxSym('j', primed=2)
    return sympy.sympify(a[1], locals={'x': x, 'y': sympy.Symbol('y'), 'z': sympy.Symbol('z', complex=True), 'n': IdxSym('n'), 'm': IdxSym('m'), 'i1': i1, 'i2': i2,
                                       'D1': sympy.Symbol('D_1', real=True, nonzero=True), 'xp': sympy.Symbol("x'"), 'T': sympy.IndexedBase('T')})


def space_of(s):
    from qnet import LocalSpace, SpinSpace
    if s[0] == 'li':
        ids = s[3]
        kw = {}
        if ids:
            kw['local_identifiers'] = dict(zip([{'create': 'Create', 'destroy': 'Destroy', 'phase': 'Phase'}[i] for i in ids[::2]], ids[1::2]))
        return LocalSpace('q0', **kw)
    if s[0] == 's':
        two = s[2]
        kw = {'basis': tuple('s%d' % i for i in range(two + 1))} if s[3] else {}
        return SpinSpace(s[1], spin=sympy.Rational(two, 2), **kw)
    kw = {}
    if isinstance(s[2], int):
        kw['dimension'] = s[2]
    elif s[2]:
        kw['basis'] = tuple(s[2])
    if s[3] is not None:
        kw['order_index'] = s[3] if isinstance(s[3], int) else 3
    return LocalSpace(s[1], **kw)


def build_atom(c):
    import qnet as q
    sp = [space_of(s) for s in c['s']]
    hs = sp[0]
    labels = {s.label for s in sp}
    t = c['t']
    args = [number(a) for a in c['a']]
    if t in ('op', 'ket', 'sop', 'opdif', 'prod'):
        if len(sp) == 2 and len(labels) == 2:
            hs = sp[0] * sp[1]
        if t == 'prod':
            return hs
        cls = {'op': q.OperatorSymbol, 'opdif': q.OperatorSymbol, 'ket': q.KetSymbol, 'sop': q.SuperOperatorSymbol}[t]
        e = cls(c['w'], *args, hs=hs)
        if t == 'opdif':
            e = cls(c['w'], sympy.Symbol('x', positive=True), sympy.Symbol('y'), *args, hs=hs)
            e = e.diff(sympy.Symbol('x', positive=True), n=1 + c['n'] % 2)
            if c['m'] % 2:
                e = e.diff(sympy.Symbol('y'))
            if c['n'] % 3 == 0:
                e = e.evaluate_at({sympy.Symbol('x', positive=True): sympy.Rational(1, 3)}) if hasattr(e, 'evaluate_at') else e
        return e
    if t == 'scalar':
        return ScalarValue.create(args[0])
    if t == 'numsc':
        return ScalarValue.create(args[0]) * q.BraKet(q.KetSymbol(c['w'], hs=hs), q.KetSymbol('Phi', hs=hs))
    if t == 'space':
        return hs
    if t in ('sig', 'basis'):
        try:
            d = hs.dimension
        except q.BasisNotSetError:
            d = 5
        j, k = c['n'] % d, c['m'] % d
        lab = (lambda i: hs.basis_labels[i]) if c['pr'] % 2 and hs.has_basis else (lambda i: i)
        if isinstance(hs, q.SpinSpace):
            lab = lambda i: hs.basis_labels[i]
        if t == 'basis':
            if isinstance(hs, q.SpinSpace):
                return q.BasisKet(lab(j), hs=hs)
            return q.BasisKet(lab(j), hs=hs)
        return q.LocalSigma(lab(j), lab(k), hs=hs) if j != k or c['pr'] else q.LocalProjector(lab(j), hs=hs)
    if t == 'loc':
        if isinstance(hs, q.SpinSpace):
            return q.Jplus(hs=hs)
        cls = getattr(q, c['k'])
        return cls(hs=hs) if c['k'] in ('Create', 'Destroy') else cls(args[0], hs=hs)
    if t == 'jz':
        hs = q.SpinSpace('s', spin=sympy.Rational(1 + c['n'], 2))
        ids = {'Jz': c['w']} if c['m'] == 1 else None
        if ids:
            hs = q.SpinSpace('s', spin=sympy.Rational(1 + c['n'], 2), local_identifiers={'Jz': 'Z', 'Jplus': 'P'})
        return [q.Jz, q.Jplus, q.Jminus][c['pr'] % 3](hs=hs)
    if t in ('idx', 'range'):
        i = q.IdxSym('i' if c['n'] else 'alpha', primed=c['pr'], **c['asm'])
        if t == 'idx':
            from qnet import FockIndex, StrLabel
            lab = {'IdxSym': lambda: q.FockIndex(i), 'FockIndex': lambda: q.FockIndex(i + c['m']), 'StrLabel': lambda: q.StrLabel(i), 'SpinIndex': None,
                   'FockLabel': lambda: q.FockLabel(i, hs=q.LocalSpace('0', basis=('g', 'e'))), 'IntIndex': lambda: q.IntIndex(i)}[c['cls']]
            if lab is None:
                return q.BasisKet(q.SpinIndex(i * sympy.Rational(1, 2), hs=q.SpinSpace('s', spin=sympy.Rational(1, 2))), hs=q.SpinSpace('s', spin=sympy.Rational(1, 2)))
            lab = lab()
            if isinstance(lab, q.StrLabel):
                return q.OperatorSymbol(lab, hs=0)
            if isinstance(lab, q.FockLabel):
                return q.BasisKet(lab, hs=q.LocalSpace('0', basis=('g', 'e')))
            if isinstance(lab, q.IntIndex):
                return q.OperatorSymbol(q.StrLabel(i), args[0], hs=0)
            return q.BasisKet(lab, hs=q.LocalSpace('0'))
        r = [lambda: q.IndexOverList(i, tuple(range(c['m'], c['m'] + 3))), lambda: q.IndexOverRange(i, c['m'] - 1, c['m'] + 3, step=1 + c['n'] % 2),
             lambda: q.IndexOverFockSpace(i, hs=q.LocalSpace('0', dimension=3)), lambda: q.IndexOverFockSpace(i, hs=q.LocalSpace('0'))][c['n']]()
        if c['n'] > 1:
            return q.KetIndexedSum(q.BasisKet(q.FockIndex(i), hs=r.hs), r)
        return q.OperatorIndexedSum(sympy.IndexedBase('a')[i] * q.OperatorSymbol(q.StrLabel(sympy.IndexedBase('A')[i]), hs=0), r)
    if t == 'circ':
        e = q.CircuitSymbol('C_1' if c['w'] in WORDS[4:] else c['w'], *args, cdim=1 + c['n'])
        if c['m'] == 1:
            return e.series_inverse()
        if c['m'] == 2:
            return e.feedback(out_port=c['n'] // 2, in_port=0) if c['n'] else e + q.CIdentity
        return e
    if t == 'comp':
        import qnet.algebra.library.circuit_components as cc
        k = c['n']
        if k == 0:
            return cc.Beamsplitter(label='BS', mixing_angle=args[0])
        if k == 1:
            return cc.PhaseCC(label='P_1', phase=args[0])
        if k == 2:
            return cc.CoherentDriveCC(displacement=args[0])
        return cc.Beamsplitter()
    if t == 'perm':
        return q.CPermutation.create(tuple(c['p']))
    raise ValueError(t)


@PROP.part('atoms', atom_case, quick=6000, rule='labels with quotes, backslashes, blanks and non-ASCII characters, numbers of every type, symbols with '
           'assumptions, primed index symbols, ranges, Hilbert spaces with every option, circuit components')
def atoms(case):
    try:
        e = build_atom(case)
    except (ValueError, TypeError, AttributeError, OverflowError) as exc:
        raise Discard('not constructed: %s' % type(exc).__name__)
    roundtrip(e, [0, 1], case['t'])
    return {'nt': True, 'tags': [case['t']] + A.classes(e), 'show': srepr(e)[:200]}
