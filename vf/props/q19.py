"""Q19 numeric conversion"""
from .. import env  # noqa
import numpy as np
import sympy
from hypothesis import strategies as st

from .. import anyexpr as A
from .. import circ, cgens, sem
from ..core import Discard, Property, ensure, shown
from ..gens import Ctx, chance, fixkinds, ket as g_ket, op as g_op, pick, sop as g_sop, world_js
from ..prog import Prog, degree
from ..sem import World, close

import qutip
from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.circuit_algebra import SLH
from qnet.algebra.core.exceptions import AlgebraError
from qnet.algebra.core.hilbert_space_algebra import FullSpace, LocalSpace, ProductSpace, TrivialSpace
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.operator_algebra import Operator, OperatorSymbol, ZeroOperator
from qnet.algebra.core.scalar_algebra import Scalar
from qnet.algebra.core.state_algebra import KetSymbol, State
from qnet.algebra.core.super_operator_algebra import SuperOperator, SuperOperatorSymbol
from qnet.convert.to_qutip import SLH_to_qutip, convert_to_qutip
from qnet.convert.to_sympy_matrix import convert_to_sympy_matrix

PROP = Property('Q19', '')

# what the conversions know about
QUTIP = {'IdentityOperator', 'ZeroOperator', 'LocalSigma', 'Create', 'Destroy', 'Phase', 'Displace', 'Squeeze', 'Jz', 'Jplus', 'Jminus',
         'OperatorSymbol', 'OperatorPlus', 'OperatorTimes', 'ScalarTimesOperator', 'Adjoint', 'PseudoInverse', 'NullSpaceProjector', 'KetBra',
         'BasisKet', 'CoherentStateKet', 'KetSymbol', 'KetPlus', 'TensorKet', 'ScalarTimesKet', 'OperatorTimesKet', 'Bra', 'ZeroKet',
         'TrivialKet', 'IdentitySuperOperator', 'ZeroSuperOperator', 'SuperOperatorSymbol', 'SuperOperatorPlus', 'SuperOperatorTimes',
         'ScalarTimesSuperOperator', 'SPre', 'SPost', 'SuperOperatorTimesOperator', 'ScalarValue', 'Zero', 'One', 'LocalSpace', 'SpinSpace',
         'ProductSpace'}
SYMPY = {'IdentityOperator', 'ZeroOperator', 'LocalSigma', 'Create', 'Destroy', 'Phase', 'Displace', 'Squeeze', 'Jz', 'Jplus', 'Jminus',
         'OperatorPlus', 'OperatorTimes', 'ScalarTimesOperator', 'Adjoint', 'ScalarValue', 'Zero', 'One'}


# ------------------------------------------------------------------ cases
NUMS = [['f', 0.5, 'p'], ['z', 0, 1, 'p'], ['i', 2, 's'], ['q', 1, 3, 'v'], ['f', -1.25, 'v'], ['z', 1, -1, 'v'], ['q', -1, 2, 's']]


def numeric(s):
    """replace the symbols of a formula by numbers"""
    if not isinstance(s, list):
        return s
    if len(s) == 4 and s[0] == 'sym':
        k = 'xyzw'.index(s[1]) if s[1] in 'xyzw' else 0
        return ['f', [0.7, -0.4, 0.55, 1.2][k], s[3]] if s[2] != 'c' else ['z', 1, [1, -1, 2, -2][k], s[3]]
    return [numeric(x) for x in s]


@st.composite
def conv_case(draw, kind, kinds=('L', 'S', 'F'), maxD=12, nmax=3, depth=(0, 1, 2, 2, 3), sympy_=False):
    ws = draw(world_js(nmax=nmax, kinds=kinds, maxD=maxD, maxdim=3))
    # one more space that the expression does not touch
    used = len(ws) if len(ws) == 1 or chance(draw, 2, 3) else len(ws) - 1
    ctx = Ctx(ws[:used], trace=False, pinv=kind == 'o' and not sympy_ and chance(draw, 1, 4), kets=not sympy_,
              symbols=('A', 'B', 'C'), sops=kind == 'o' and not sympy_ and used == 1 and chance(draw, 1, 6))
    d = pick(draw, list(depth))
    if kind == 'o':
        e = draw(g_op(ctx, d))
    elif kind in 'kb':
        n = draw(st.integers(1, used))
        e = draw(g_ket(ctx, sorted(draw(st.permutations(list(range(used))))[:n]), d))
    else:
        e = draw(g_sop(ctx, min(d, 2)))
    e = fixkinds(e)
    return {'w': ws, 'e': e if sympy_ else numeric(e), 'full': draw(st.integers(0, 2)), 'map': draw(st.integers(0, 3)),
            'b': kind == 'k' and chance(draw, 1, 4), 'sub': draw(st.integers(0, 30))}


def setup(case, low=3, limit=120):
    deg = degree(case['e'])
    ws = []
    for js in case['w']:
        js = dict(js)
        if js['k'] == 'F':
            if deg > 6:
                raise Discard('degree too high')
            js['n'] = low + deg + 1
        ws.append(js)
    w = World(ws, base=low, extra=deg + 1)
    if w.dim(w.all) > limit:
        raise Discard('too large')
    return w


def order_of(hs):
    return [str(ls.label) for ls in hs.local_factors]


def canon_op(m, w, labels, order):
    """matrix on labels (world order) -> canonical order"""
    n = len(labels)
    ds = w.dims(labels)
    p = [labels.index(lb) for lb in order]
    D = w.dim(labels)
    return m.reshape(ds * 2).transpose(p + [n + i for i in p]).reshape(D, D) if n else m


def canon_super(m, w, labels, order):
    n = len(labels)
    ds = w.dims(labels)
    p = [labels.index(lb) for lb in order]
    D = w.dim(labels)
    t = m.reshape(ds * 4).transpose(sum([[g * n + i for i in p] for g in range(4)], [])).reshape((D, ) * 4)
    return t.transpose(1, 0, 3, 2).reshape(D * D, D * D)      # QuTiP stacks columns


def low_idx(w, order):
    """positions of the basis states whose Fock levels are low"""
    grids = np.meshgrid(*[np.arange(n) for n in w.dims(order)], indexing='ij')
    ok = np.ones(grids[0].shape, bool) if grids else np.ones((), bool)
    for g, lb in zip(grids, order):
        s = w.by_label[lb]
        if not s.finite:
            ok = ok & (g < w.base)
    return np.flatnonzero(ok.reshape(-1))


def symbols_in(e):
    out = []

    def rec(x):
        if isinstance(x, (OperatorSymbol, KetSymbol, SuperOperatorSymbol)) and not type(x).__name__ in ('ZeroKet', 'TrivialKet', 'BasisKet', 'CoherentStateKet'):
            if type(x).__name__ in ('OperatorSymbol', 'KetSymbol', 'SuperOperatorSymbol') and x not in out:
                out.append(x)
            return
        if isinstance(x, Expression):
            for y in A.children(x):
                rec(y)
    rec(e)
    return out


def qdims(w, order):
    return [w.by_label[lb].N for lb in order]


def mapped(x, w):
    """QuTiP object for a symbol in its own space"""
    order = order_of(x.space)
    labels = w.labels_of(x.space)
    d = qdims(w, order)
    if isinstance(x, OperatorSymbol):
        return qutip.Qobj(canon_op(sem.op(x, w, labels), w, labels, order), dims=[d, d])
    if isinstance(x, SuperOperatorSymbol):
        return qutip.Qobj(canon_super(sem.superop(x, w, labels), w, labels, order), dims=[[d, d], [d, d]])
    lab, v = sem.ket(x, w)
    v = v.reshape(w.dims(lab)).transpose([lab.index(lb) for lb in order]).reshape(-1, 1)
    return qutip.Qobj(v, dims=[d, [1] * len(d)])


def names(e, acc=None):
    acc = set() if acc is None else acc
    acc.add(sem.cname(e))
    if isinstance(e, Expression):
        for y in A.children(e):
            names(y, acc)
        if hasattr(e, 'coeff'):
            names(e.coeff, acc)
    return acc


def full_of(case, w, e):
    """the Hilbert space to convert in: its own, all, or its own and one more"""
    hs = e.space
    if case['full'] == 0 and hs is not TrivialSpace:
        return None, hs
    if case['full'] == 1:
        full = ProductSpace.create(*[w.by_label[lb].hs for lb in w.all])
        return full, full
    extra = [w.by_label[lb].hs for lb in w.all if lb not in w.labels_of(hs)]
    full = hs * extra[0] if extra else hs
    return full, full


def expected(e, w, full):
    order = order_of(full)
    labels = w.sort(order)
    if isinstance(e, Operator):
        return canon_op(sem.op(e, w, labels), w, labels, order)
    if isinstance(e, SuperOperator):
        return canon_super(sem.superop(e, w, labels), w, labels, order)
    bra = isinstance(e, State) and e.isbra
    k = e.ket if bra else e
    lab, v = sem.ket(k, w)
    if v is None:
        r = np.zeros((w.dim(order), 1), complex)
    else:
        # in a larger space: the identity on the other factors
        own = [lb for lb in order if lb in lab]
        rest = [lb for lb in order if lb not in lab]
        v = v.reshape(w.dims(lab) or [1]).transpose([lab.index(lb) for lb in own] or [0]).reshape(-1)
        M = w.dim(rest)
        t = np.kron(v.reshape(-1, 1), np.eye(M)).reshape(w.dims(own) + w.dims(rest) + [M])
        cur = own + rest
        r = t.transpose([cur.index(lb) for lb in order] + [len(cur)]).reshape(-1, M)
    return r.conj().T if bra else r


def compare(q, e, w, full, what='conversion'):
    order = order_of(full)
    ref = expected(e, w, full)
    got = q.full() if isinstance(q, qutip.Qobj) else np.asarray(q)
    ensure(got.shape == ref.shape, '%s of %s has shape %s instead of %s', what, e, got.shape, ref.shape)
    if any(not w.by_label[lb].finite for lb in order):
        idx = low_idx(w, order)
        D = w.dim(order)
        for ax in (0, 1):
            if got.shape[ax] == D:
                got, ref = got.take(idx, ax), ref.take(idx, ax)
            elif got.shape[ax] == D * D:
                ii = (idx[:, None] * D + idx[None, :]).ravel()
                got, ref = got.take(ii, ax), ref.take(ii, ax)
            elif got.shape[ax] > 1:
                # columns of a state in a larger space
                rest = [lb for lb in order if lb not in w.labels_of((e.ket if e.isbra else e).space)]
                ii = low_idx(w, rest)
                got, ref = got.take(ii, ax), ref.take(ii, ax)
    ensure(close(got, ref), '%s of %s in %s is\n%s\ninstead of\n%s', what, e, full, np.round(got, 4), np.round(ref, 4))
    if isinstance(q, qutip.Qobj):
        d = qdims(w, order)
        want = [[d, d], [d, d]] if isinstance(e, SuperOperator) else [d, d] if isinstance(e, Operator) else None
        ensure(want is None or q.dims == want, '%s of %s has dimensions %s', what, e, q.dims)
        if isinstance(e, Operator):
            full_m = q.full()
            ensure(bool(q.isherm) == bool(np.abs(full_m - full_m.conj().T).max() < 1e-10) or np.abs(full_m - full_m.conj().T).max() < 1e-6,
                   'isherm is %s: %s', q.isherm, e)


def qutip_check(case, w, e):
    syms = symbols_in(e)
    mapping = {}
    for i, x in enumerate(syms):
        q = mapped(x, w)
        mapping[x] = q if (case['map'] >> (i % 2)) & 1 else (lambda expr, q=q, x=x: q if expr == x else None)
    known = names(e) <= QUTIP
    if e.space is FullSpace:
        raise Discard('zero ket')
    given, full = full_of(case, w, e)
    tags = ['own' if full == e.space else 'larger']
    if full is TrivialSpace:
        try:
            convert_to_qutip(e, full, mapping=mapping)
            ensure(False, 'converted in the trivial space: %s', e)
        except AlgebraError:
            raise Discard('trivial space')
    try:
        q = convert_to_qutip(e, given, mapping=mapping or None)
    except (ValueError, NotImplementedError, TypeError) as exc:
        ensure(not known, 'conversion of %s refused: %r', e, exc)
        raise Discard('refused')
    compare(q, e, w, full)
    if syms:
        tags.append('symbols')
        # without the mapping
        bad = syms[case['sub'] % len(syms)]
        m2 = {k: v for k, v in mapping.items() if k != bad}
        try:
            q2 = convert_to_qutip(e, given, mapping=m2 or None)
        except (ValueError, NotImplementedError, TypeError):
            pass
        else:
            # nothing can be known of the symbol
            ensure(False, 'conversion with %s unknown: %s', bad, q2)
    # sub-expressions replaced by mapped objects
    parts = [x for x in A.subexprs(e) if isinstance(x, (Operator, SuperOperator, State)) and not x.space is TrivialSpace and x != e
             and not getattr(x, 'isbra', False) and x not in syms] if known else []
    if parts and case['map']:
        x = parts[case['sub'] % len(parts)]
        own = x.space
        labels = w.labels_of(own)
        mat = expected(x, w, own)
        d = qdims(w, order_of(own))
        if isinstance(x, SuperOperator):
            qx = qutip.Qobj(mat, dims=[[d, d], [d, d]])
        else:
            qx = qutip.Qobj(mat, dims=[d, d] if isinstance(x, Operator) else [d, [1] * len(d)])
        m3 = dict(mapping)
        m3[x] = qx if case['sub'] % 2 else (lambda expr: qx)
        q3 = convert_to_qutip(e, given, mapping=m3)
        if all(w.by_label[lb].finite for lb in order_of(full)):
            compare(q3, e, w, full, 'conversion with an object for %s' % x)
        tags.append('part')
    # not in the space
    if len(order_of(e.space)) >= 1 and len(w.all) > 1:
        others = [lb for lb in w.all if lb not in order_of(e.space)[:1]]
        small = ProductSpace.create(*[w.by_label[lb].hs for lb in others])
        try:
            r = convert_to_qutip(e, small, mapping=mapping)
        except (ValueError, AlgebraError):
            pass
        else:
            ensure(False, 'converted in %s: %s', small, e)
    return {'nt': A.nodes(e) >= 3, 'tags': tags + A.classes(e), 'show': shown(e)}


@PROP.part('op', lambda: conv_case('o'), quick=4500, rule='operators with three nodes or more to QuTiP, symbols and parts given as objects')
def op_(case):
    w = setup(case)
    Prog(w).ref_op(case['e'])
    e = Prog(w).build_op(case['e'])
    return qutip_check(case, w, e)


@PROP.part('ket', lambda: conv_case('k'), quick=2400, rule='kets and bras with three nodes or more to QuTiP')
def ket_(case):
    w = setup(case)
    p = Prog(w)
    p.ref_ket(case['e'])
    e = p.build_ket(case['e'])
    if case['b']:
        e = e.dag()
    if not isinstance(e, State):
        raise Discard('a scalar')
    return qutip_check(case, w, e)


@PROP.part('sop', lambda: conv_case('p', kinds=('L', 'S'), maxD=6, nmax=2), quick=1600, rule='super-operators with three nodes or more to QuTiP')
def sop_(case):
    w = setup(case, limit=8)
    p = Prog(w)
    p.ref_sop(case['e'])
    e = p.build_sop(case['e'])
    return qutip_check(case, w, e)


# ------------------------------------------------------------------ displacement etc.
@st.composite
def amp_case(draw):
    ws = [{'k': 'F', 'l': pick(draw, ['1', 'a'])}]
    if chance(draw, 1, 3):
        ws.append({'k': 'L', 'l': pick(draw, ['0', 'b']), 'd': 2})
    ctx = Ctx(ws, trace=False, pinv=False, kets=False, amp=True, coh=False)
    amp = lambda: pick(draw, [['f', draw(st.sampled_from([0.3, -0.2, 0.5])), pick(draw, ['p', 's'])], ['q', draw(st.sampled_from([1, -1])), 4, 's'],
                              ['zz', draw(st.sampled_from([0.3, -0.25, 0.0])), draw(st.sampled_from([0.25, -0.3])), draw(st.integers(0, 1))]])
    fac = lambda: pick(draw, [['disp', 0, amp()], ['disp', 0, amp()], ['sq', 0, amp()], ['create', 0], ['destroy', 0], ['sigma', 0, draw(st.integers(0, 2)), draw(st.integers(0, 2)), 0],
                              ['phase', 0, pick(draw, [['f', 0.7, 'p'], ['q', 1, 3, 's'], ['z', 0, 1, 's'], ['f', -0.4, 's']])]] +
                       ([['proj', 1, draw(st.integers(0, 1)), 0]] if len(ws) > 1 else []))
    fs = [fac() for _ in range(draw(st.integers(1, 3)))]
    return {'w': ws, 'f': fs, 'adj': draw(st.integers(0, 1)), 'coh': amp() if chance(draw, 1, 3) else None, 'plus': chance(draw, 1, 4), 'full': draw(st.integers(0, 1)),
            'map': 0, 'sub': 0}


def amp_val(a):
    if a[0] == 'zz':
        z = complex(a[1], a[2])
        return z if a[3] else sympy.Rational(str(a[1])) + sympy.I * sympy.Rational(str(a[2]))
    if a[0] == 'q':
        return sympy.Rational(a[1], a[2])
    if a[0] == 'z':
        return a[1] + sympy.I * a[2]
    return sympy.Float(a[1]) if a[2] == 's' else a[1]


@PROP.part('fock', amp_case, quick=700, rule='products of displacement, squeezing, phase, ladder operators applied to coherent states')
def fock(case):
    from qnet import CoherentStateKet, Create, Destroy, Displace, LocalProjector, LocalSigma, Phase, Squeeze
    ws = [dict(js, n=34) if js['k'] == 'F' else js for js in case['w']]
    w = World(ws, base=3, extra=31)
    hs = [w.by_label[str(js['l'])].hs for js in ws]
    ops = []
    for f in case['f']:
        h = hs[f[1]]
        ops.append({'disp': lambda: Displace(amp_val(f[2]), hs=h), 'sq': lambda: Squeeze(amp_val(f[2]), hs=h), 'create': lambda: Create(hs=h),
                    'destroy': lambda: Destroy(hs=h), 'phase': lambda: Phase(amp_val(f[2]), hs=h), 'sigma': lambda: LocalSigma(f[2], f[3], hs=h),
                    'proj': lambda: LocalProjector(f[2], hs=h)}[f[0]]())
    e = ops[0]
    for o in ops[1:]:
        e = e + o if case['plus'] else e * o
    if case['adj']:
        e = e.adjoint()
    if case['coh'] and len(e.space.local_factors) == 1 and e.space == hs[0] and not any(f[0] == 'phase' and f[2][0] == 'z' for f in case['f']):
        e = e * CoherentStateKet(amp_val(case['coh']), hs=hs[0])
    if not isinstance(e, (Operator, State)):
        raise Discard('scalar')
    given, full = full_of(case, w, e)
    if full is TrivialSpace:
        raise Discard('trivial')
    q = convert_to_qutip(e, given)
    compare(q, e, w, full)
    return {'nt': any(f[0] in ('disp', 'sq', 'phase') for f in case['f']) or bool(case['coh']), 'tags': A.classes(e), 'show': shown(e)}


# ------------------------------------------------------------------ SymPy
@st.composite
def sympy_case(draw):
    c = draw(conv_case('o', maxD=9, nmax=3, depth=(0, 1, 1, 2, 2), sympy_=True))
    if not chance(draw, 1, 10):
        c['e'] = fixkinds(no_sym(c['e']))
    return c


@PROP.part('sympy', sympy_case, quick=1600, rule='operators with three nodes or more, with symbolic coefficients, to SymPy matrices')
def sympy_(case):
    w = setup(case, low=3, limit=14)
    p = Prog(w)
    p.ref_op(case['e'])
    e = p.build_op(case['e'])
    known = names(e) <= SYMPY
    given, full = full_of(case, w, e)
    if full is TrivialSpace:
        raise Discard('trivial space')
    try:
        m = convert_to_sympy_matrix(e, given)
    except (ValueError, NotImplementedError, TypeError) as exc:
        if known:
            raise
        raise Discard('refused')
    D = w.dim(order_of(full))
    if isinstance(m, int) and m == 0 and e is ZeroOperator:
        m = sympy.zeros(D)     # the library represents the zero operator by the number, see its tests
    ensure(isinstance(m, sympy.MatrixBase) and m.shape == (D, D), 'conversion of %s to %r', e, m)
    vals = np.array([[sem.num_sympy(sympy.sympify(m[i, j]), w) for j in range(D)] for i in range(D)])
    compare(vals, e, w, full)
    if len(w.all) > 1 and len(order_of(e.space)):
        small = ProductSpace.create(*[w.by_label[lb].hs for lb in w.all if lb not in order_of(e.space)[:1]])
        try:
            convert_to_sympy_matrix(e, small)
        except ValueError:
            pass
        else:
            ensure(False, 'converted in %s: %s', small, e)
    return {'nt': A.nodes(e) >= 3, 'tags': A.classes(e), 'show': shown(e)}


# ------------------------------------------------------------------ SLH
@st.composite
def slh_case(draw):
    ws = draw(world_js(nmax=2, kinds=('L', 'S'), maxD=4, maxdim=3))
    ctx = Ctx(ws, trace=False, pinv=False, kets=False, ladder=False, bigsyms=False, pow=False)
    n = draw(st.integers(1, 3))
    L = []
    for _ in range(n):
        k = draw(st.integers(0, 5))
        leaf = numeric(draw(g_op(ctx, 1)))
        L.append(['sc', pick(draw, NUMS)] if k == 0 else ['sc', ['i', 0, 'p']] if k == 1 else ['adds', leaf, pick(draw, NUMS), 0] if k == 2 else leaf)
    H = numeric(draw(g_op(ctx, 1)))
    t = lambda: pick(draw, ['1', 't', 't**2', 'exp(-t)', 'I*t', 'cos(2*t)', '1+t', 'exp(I*t)', '2*I', 'sin(t)*I'])
    return {'w': ws, 'L': fixkinds(L), 'H': fixkinds(H), 'full': draw(st.integers(0, 1)), 'time': draw(st.integers(0, 2)), 'tc': [t() for _ in range(n + 1)],
            'tv': draw(st.sampled_from([0.0, 0.6, -1.3]))}


def no_sym(s):
    """replace operator symbols (no object can be given in SLH_to_qutip)"""
    if not isinstance(s, list):
        return s
    if s and s[0] == 'pmcc':
        return no_sym(s[2])
    if s and s[0] == 'osym':
        i = s[2][0]
        return ['sigma', i, 'ABC'.index(s[1]) % 2, ('ABC'.index(s[1]) + 1) // 2 % 2, 0]
    return [no_sym(x) for x in s]


def lindblad(H, Ls):
    D = H.shape[0]
    I = np.eye(D)
    pre = lambda m: np.kron(m, I)
    post = lambda m: np.kron(I, m.T)
    S = -1j * (pre(H) - post(H))
    for L in Ls:
        LL = L.conj().T @ L
        S = S + np.kron(L, L.conj()) - 0.5 * (pre(LL) + post(LL))
    return S


def at_time(q, t, form):
    """value of a QuTiP operator or list of [operator, coefficient]"""
    if isinstance(q, qutip.Qobj):
        return q.full()
    ensure(isinstance(q, list) and q, 'not a QuTiP operator: %r', q)
    items = q
    if len(q) == 2 and isinstance(q[0], qutip.Qobj) and not isinstance(q[1], (list, qutip.Qobj)):
        items = [q]
    r = 0
    for it in items:
        if isinstance(it, qutip.Qobj):
            r = r + it.full()
        else:
            ensure(isinstance(it, list) and len(it) == 2 and isinstance(it[0], qutip.Qobj), 'not an [operator, coefficient] pair: %r', it)
            c = it[1]
            if form == 'pyfunc':
                ensure(callable(c), 'coefficient is not a function: %r', c)
                v = complex(c(t, {}))
            else:
                ensure(isinstance(c, str), 'coefficient is not a string: %r', c)
                v = complex(eval(c, {'t': t, 'exp': np.exp, 'cos': np.cos, 'sin': np.sin, 'sqrt': np.sqrt, 'pi': np.pi}))
            r = r + v * it[0].full()
    return r


@PROP.part('slh', slh_case, quick=900, rule='an SLH with at least one non-vanishing coupling: the QuTiP objects give the same master equation')
def slh(case):
    from qnet.algebra.core.operator_algebra import Adjoint, ZeroOperator, adjoint
    w = setup({'w': case['w'], 'e': ['id']}, limit=8)
    p = Prog(w)
    t = sympy.Symbol('t', real=True)
    tv = case['tv']
    coef = [sympy.sympify(c, locals={'t': t}) if case['time'] else sympy.Integer(1) for c in case['tc']]
    n = len(case['L'])
    full = ProductSpace.create(*[w.by_label[lb].hs for lb in w.all])
    order = order_of(full)
    num = lambda c: complex(c.subs({t: tv}))
    Hs, Lr, Lb = no_sym(case['H']), [], []
    refs = []
    for c, s in zip(coef, case['L']):
        s = no_sym(s)
        if s[0] == 'sc':
            refs.append(num(c) * p.ref_scalar(s[1]) * np.eye(w.dim(w.all)))
            x = p.build_scalar(s[1])
            Lb.append(c * x)
        else:
            refs.append(num(c) * p.ref_op(s))
            Lb.append(c * p.build_op(s))
    h0 = p.ref_op(Hs)
    Href = num(coef[n]) * h0
    Href = Href + Href.conj().T
    hb = coef[n] * p.build_op(Hs)
    Hb = hb + adjoint(hb)
    e = SLH(np.eye(n, dtype=int) if False else __import__('qnet').identity_matrix(n), Matrix([[x] for x in Lb]), Hb)
    if e.space is TrivialSpace or not w.labels_of(e.space):
        try:
            SLH_to_qutip(e)
            ensure(False, 'converted in the trivial space')
        except AlgebraError:
            pass
        case = dict(case, full=1)
    own = e.space if not case['full'] else full
    form = 'pyfunc' if case['time'] < 2 else 'str'
    kw = {}
    if case['time']:
        kw = {'time_symbol': t, 'convert_as': form}
    H, Ls = SLH_to_qutip(e, full_space=own if case['full'] else None, **kw)
    labels = w.sort(order_of(own))
    # reference in the space of the conversion: the expressions themselves
    rest = [lb for lb in w.all if lb not in labels]
    canon = lambda m: canon_op(m, w, w.all, order)
    Hq = at_time(H, tv, form)
    Lq = [at_time(x, tv, form) for x in Ls]
    d = w.dims(order_of(own))
    emb = lambda m: canon_op(w.embed(canon_op_inv(m, w, labels, order_of(own)), labels, w.all), w, w.all, order)
    if case['time'] == 0:
        ensure(isinstance(H, qutip.Qobj) and H.dims == [d, d], 'dimensions %s', getattr(H, 'dims', None))
        ensure(len(Lq) <= n, '%d collapse operators instead of %d', len(Lq), n)
    else:
        ensure(len(Lq) == n, '%d collapse operators instead of %d', len(Lq), n)
    S1 = lindblad(emb(Hq), [emb(x) for x in Lq])
    S2 = lindblad(canon(Href), [canon(r) for r in refs])
    ensure(close(S1, S2), 'master equation of the conversion of %s', e)
    ensure(close(Hq, Hq.conj().T), 'Hamiltonian of %s is not Hermitian', e)
    nt = any(np.abs(r).max() > 1e-9 for r in refs)
    return {'nt': nt, 'tags': ['time%d' % case['time'], 'full%d' % case['full']], 'show': shown(e)}


def canon_op_inv(m, w, labels, order):
    """matrix in canonical order -> world order"""
    n = len(order)
    p = [order.index(lb) for lb in labels]
    return m.reshape(w.dims(order) * 2).transpose(p + [n + i for i in p]).reshape(m.shape)
