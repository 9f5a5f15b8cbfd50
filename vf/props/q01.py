"""Q01 operator algebra soundness"""
from .. import env  # noqa
from hypothesis import strategies as st

from ..core import Property, ensure, Discard, shown
from ..gens import Ctx, fixkinds, op, pick, world_js, amplitude, chance
from ..prog import Prog, degree, heads, size
from ..sem import World, close, low_block, op as sem_op

from qnet.algebra.core.operator_algebra import Operator
from qnet.algebra.core.scalar_algebra import Scalar, ScalarValue
from qnet.algebra.toolbox.commutator_manipulation import expand_commutators_leibniz

PROP = Property('Q01', '')

TRANSFORMS = ['expand', 'rebuild', 'doit', 'simplify', 'leibniz', 'dagdag', 'recreate']


def transform(e, t):
    if t == 'expand':
        return e.expand()
    if t == 'rebuild':
        return e.rebuild()
    if t == 'doit':
        return e.doit()
    if t == 'simplify':
        return e.simplify_scalar()
    if t == 'leibniz':
        return expand_commutators_leibniz(e)
    if t == 'dagdag':
        return e.dag().dag()
    if t == 'recreate':
        return type(e).create(*e.args, **e.kwargs)
    raise ValueError(t)


def check_op(case, tol, extra=None, base=3):
    spec = case['e']
    w = World(case['w'], base=base, extra=degree(spec) if extra is None else extra)
    if 'env' in case:
        w = w.with_env(**{k: complex(*v) for k, v in case['env'].items()})
    if w.dim(w.all) > 220:
        raise Discard('too large')
    p = Prog(w)
    ref = low_block(p.ref_op(spec), w)
    e = p.build_op(spec)
    ensure(isinstance(e, Operator), 'construction gave %r, not an operator', e)
    show = shown(e)
    ensure(close(low_block(sem_op(e, w), w), ref, tol), 'constructed expression %s denotes a different operator', e)
    for t in case['t']:
        e = transform(e, t)
        ensure(isinstance(e, Operator), '%s gave %r, not an operator', t, e)
        ensure(close(low_block(sem_op(e, w), w), ref, tol), 'after %s, %s denotes a different operator', t, e)
    return {'nt': size(spec) >= 4, 'tags': sorted(heads(spec)), 'show': show}


@st.composite
def finite_case(draw):
    ws = draw(world_js(nmax=3, kinds=('L', 'S', 'L'), maxD=12))
    ctx = Ctx(ws)
    depth = pick(draw, [2, 2, 3])
    e = draw(op(ctx, depth))
    return {'w': ws, 'e': fixkinds(e), 't': draw(st.lists(st.sampled_from(TRANSFORMS), max_size=3))}


@PROP.part('finite', finite_case, quick=8000)
def finite(case):
    return check_op(case, 1e-7)


@st.composite
def fock_case(draw):
    ws = draw(world_js(nmax=2, kinds=('F', 'F', 'L', 'S'), maxD=9, maxdim=2))
    if not any(js['k'] == 'F' for js in ws):
        ws[0] = {'k': 'F', 'l': ws[0]['l']}
    ctx = Ctx(ws, trace=False, pinv=False, pow=True)
    e = draw(op(ctx, pick(draw, [2, 2, 3])))
    return {'w': ws, 'e': fixkinds(e), 't': draw(st.lists(st.sampled_from(TRANSFORMS), max_size=3))}


@PROP.part('fock', fock_case, quick=7000)
def fock(case):
    if degree(case['e']) > 10:
        raise Discard('degree too high')
    return check_op(case, 1e-7)


@st.composite
def chain_case(draw):
    """flat products of local operators on few degrees of freedom: the binary rules"""
    ws = draw(world_js(nmax=2, kinds=('F', 'S', 'F', 'L'), maxD=9, maxdim=4))
    ctx = Ctx(ws, trace=False, pinv=False, kets=False)
    from ..gens import op_leaf, scalar
    n = draw(st.integers(2, 5))
    fs = []
    for _ in range(n):
        x = draw(op_leaf(ctx))
        if chance(draw, 1, 6):
            x = ['smul', draw(scalar(ctx, 1)), x]
        if chance(draw, 1, 6):
            x = ['adj', x, 0]
        fs.append(x)
    e = ['omul', fs, draw(st.integers(0, 1))]
    c = draw(st.integers(0, 3))
    if c == 1:
        e = ['comm', ['omul', fs[:n // 2], 0] if n // 2 > 1 else fs[0], ['omul', fs[n // 2:], 0] if n - n // 2 > 1 else fs[-1]]
    return {'w': ws, 'e': fixkinds(e), 't': draw(st.lists(st.sampled_from(TRANSFORMS), max_size=2))}


@PROP.part('chain', chain_case, quick=8000)
def chain(case):
    return check_op(case, 1e-7)


@st.composite
def amp_case(draw):
    ws = draw(world_js(nmax=2, nmin=1, kinds=('F', ), maxD=9, maxdim=2))
    if len(ws) == 2:
        ws[1] = {'k': 'L', 'l': ws[1]['l'], 'd': 2}
    ctx = Ctx(ws, trace=False, pinv=False, kets=False, amp=True, pow=False, symbols=('A', ))
    from ..gens import op_leaf
    if chance(draw, 1, 2):
        n = draw(st.integers(2, 4))
        e = ['omul', [draw(op_leaf(ctx)) for _ in range(n)], draw(st.integers(0, 1))]
        if chance(draw, 1, 3):
            e = ['adj', e, 0]
    else:
        e = draw(op(ctx, 2))
    return {'w': ws, 'e': fixkinds(e), 't': draw(st.lists(st.sampled_from(TRANSFORMS), max_size=2)),
            'env': {'al': [0.31, 0.22], 'be': [-0.27, 0.18]}}


@PROP.part('displace', amp_case, quick=4000)
def displace(case):
    if degree(case['e']) > 6:
        raise Discard('degree too high')
    return check_op(case, 1e-4, extra=29)


@st.composite
def inverse_case(draw):
    ws = draw(world_js(nmax=2, nmin=1, kinds=('F', 'F', 'L'), maxD=9, maxdim=2))
    if not any(js['k'] == 'F' for js in ws):
        ws[0] = {'k': 'F', 'l': ws[0]['l']}
    for js in ws[1:] if ws[0]['k'] == 'F' else []:
        if js['k'] == 'F':
            js.clear()
    ws = [js if js else {'k': 'L', 'l': 'h%d' % i, 'd': 2} for i, js in enumerate(ws)]
    fs = []
    for i in draw(st.permutations(list(range(len(ws))))):
        if ws[i]['k'] == 'F':
            t = pick(draw, ['phase', 'phase', 'disp', 'sq'])
            from ..gens import amplitude
            a = draw(amplitude()) if t != 'phase' else pick(draw, [
                ['sym', 'x', 'c', 's'], ['z', 1, 1, 's'], ['sym', 'y', 'r', 'v'], ['q', 1, 3, 's'], ['z', 0, -1, 'p']])
            f = [t, i, a]
        else:
            f = pick(draw, [['X', i], ['id']])
        if chance(draw, 1, 3):
            f = ['adj', f, 0]
        if chance(draw, 1, 3):
            f = ['smul', pick(draw, [['i', 2, 'p'], ['sym', 'x', 'c', 's'], ['z', 0, 1, 'p'], ['sym', 'z', 'p', 'v']]), f]
        fs.append(f)
    if len(fs) > 1 and chance(draw, 1, 3):
        fs.append(fs[-1])
    return {'w': ws, 'f': fs, 'how': draw(st.integers(0, 1)), 'env': {'al': [0.31, 0.22], 'be': [-0.27, 0.18]}}


@PROP.part('inverse', inverse_case, quick=1000, rule='the pseudo-inverse of an invertible operator (phase, displacement, squeezing, '
           'flips, products and multiples of them) is its inverse')
def inverse(case):
    import numpy as np
    from qnet.algebra.core.operator_algebra import PseudoInverse
    w = World(case['w'], base=3, extra=29)
    if case['env']:
        w = w.with_env(**{k: complex(*v) for k, v in case['env'].items()})
    p = Prog(w)
    fs = []
    for f in case['f']:
        fs.append(p.build_op(f) if 'X' not in str(f) else fixed_flip(p, w, f))
    ops = [f for f in fs]
    u = ops[0]
    for o in ops[1:]:
        u = u * o
    v = PseudoInverse.create(u) if case['how'] else u.pseudo_inverse()
    if isinstance(v, PseudoInverse):
        # left symbolic: nothing has been claimed
        ensure(v.operand == u, 'pseudo inverse of %s: %s', u, v)
        return {'nt': False, 'tags': ['symbolic'], 'show': shown(u)}
    a, b = sem_op(u, w), sem_op(v, w)
    r = low_block(b @ a, w)
    ensure(close(r, np.eye(len(r)), 1e-4), 'pseudo-inverse of %s is %s', u, v)
    return {'nt': True, 'tags': [f[0] for f in case['f']], 'show': shown(u)}


def fixed_flip(p, w, f):
    if f[0] == 'adj':
        return fixed_flip(p, w, f[1]).dag()
    if f[0] == 'smul':
        return p.build_scalar(f[1]) * fixed_flip(p, w, f[2])
    from qnet.algebra.library.pauli_matrices import PauliX
    sp = w.spaces[f[1]]
    return PauliX(sp.hs) if sp.N == 2 else p.build_op(['id'])


# ------------------------------------------------------------------ manual rewritings and decompositions of operators
@st.composite
def manual_case(draw):
    from ..gens import op_leaf, scalar
    ws = draw(world_js(nmax=2, kinds=('L', 'S', 'L'), maxD=6))
    ctx = Ctx(ws)
    kind = pick(draw, ['pmcc', 'pmcc', 'basis', 'basis_h', 'coeffs', 'factor', 'pauli'])
    if kind in ('pmcc', 'coeffs'):
        terms = []
        for _ in range(draw(st.integers(1, 3))):
            a = draw(op(ctx, pick(draw, [0, 0, 1])))
            c = draw(scalar(ctx, 0))
            terms.append(['smul', c, a])
            sg = pick(draw, [1, 1, -1, 0])
            if sg:
                d = c if chance(draw, 2, 3) else draw(scalar(ctx, 0))
                terms.append(['smul', d if sg == 1 else ['neg', d], ['adj', a, 0]])
            if chance(draw, 1, 4):
                terms.append(a)
        e = ['oadd', draw(st.permutations(terms)), 0] if len(terms) > 1 else terms[0]
        if chance(draw, 1, 4):
            e = ['omul', [e, draw(op_leaf(ctx))], 0]
    elif kind == 'factor':
        e = ['omul', draw(st.lists(op(ctx, pick(draw, [0, 1])), min_size=2, max_size=4)), 0]
    elif kind == 'pauli':
        i = draw(st.integers(0, len(ws) - 1))
        n = ctx.n_levels(i)
        lv = draw(st.permutations(list(range(n))))[:2] if chance(draw, 1, 2) else None
        e = [pick(draw, 'XYZ'), i, lv, draw(st.integers(0, 1))]
    else:
        e = draw(op(ctx, pick(draw, [0, 1, 2])))
    return {'w': ws, 'e': e if kind == 'pauli' else fixkinds(e), 'kind': kind, 'sp': draw(st.integers(0, 3))}


@PROP.part('manual', manual_case, quick=2500, rule='rewriting with plus/minus c.c., expansion in the basis, table of coefficients, factorisation '
           'by a Hilbert space, Pauli operators')
def manual(case):
    import numpy as np
    from qnet.algebra.core.operator_algebra import OperatorTimes, get_coeffs, rewrite_with_operator_pm_cc
    from qnet.algebra.core.hilbert_space_algebra import TrivialSpace
    from qnet.algebra.library.pauli_matrices import PauliX, PauliY, PauliZ
    w = World(case['w'])
    p = Prog(w)
    kind, spec = case['kind'], case['e']
    if kind == 'pauli':
        name, i, lv, mode = spec
        sp = w.spaces[i]
        a, b = lv if lv is not None else (0, 1)
        e = {'X': PauliX, 'Y': PauliY, 'Z': PauliZ}[name](
            sp.hs, **({} if lv is None else {'states': tuple(p.level_arg(i, v, mode) for v in lv)}))
        m = np.zeros((sp.N, sp.N), complex)
        if name == 'X':
            m[a, b] = m[b, a] = 1
        elif name == 'Y':
            m[a, b], m[b, a] = -1j, 1j
        else:
            m[a, a], m[b, b] = 1, -1
        ensure(close(sem_op(e, w, (sp.label, )), m), 'Pauli%s = %s', name, e)
        return {'nt': True, 'tags': [kind], 'show': shown(e)}
    ref = p.ref_op(spec)
    e = p.build_op(spec)
    if kind == 'pmcc':
        r = rewrite_with_operator_pm_cc(e)
        ensure(close(sem_op(r, w), ref), 'rewritten with plus/minus c.c.: %s -> %s', e, r)
        ensure(close(sem_op(r.doit(), w), ref), 'rewritten with plus/minus c.c. and evaluated: %s -> %s', e, r)
    elif kind in ('basis', 'basis_h'):
        if kind == 'basis_h':
            e, ref = e + e.dag(), ref + ref.conj().T
        if w.dim(w.labels_of(e.space)) > 6:
            raise Discard('too large')
        r = e.expand_in_basis(hermitian=kind == 'basis_h')
        if e.space is TrivialSpace:
            raise Discard('no basis to expand in')
        ensure(close(sem_op(r, w), ref), '%s expanded in the basis is %s', e, r)
    elif kind == 'coeffs':
        r = get_coeffs(e, expand=bool(case['sp'] & 1))
        tot = 0 * ref
        from .. import sem
        for t, c in r.items():
            tot = tot + sem.scalar(c, w) * sem_op(t, w)
        ensure(close(tot, ref), 'coefficients of %s are %s', e, dict(r))
    else:
        if not isinstance(e, OperatorTimes):
            raise Discard('not a product')
        spc = ([s.hs for s in w.spaces] + [TrivialSpace])[case['sp'] % (len(w.spaces) + 1)]
        on, off = e.factor_for_space(spc)
        ensure(off.space.isdisjoint(spc) or spc is TrivialSpace, '%s acts on %s', off, spc)
        for o in (on.operands if isinstance(on, OperatorTimes) else [on]):
            ensure(not o.space.isdisjoint(spc) or o.space is TrivialSpace, '%s does not act on %s', o, spc)
        if off.space.isdisjoint(on.space):
            ensure(close(sem_op(on, w) @ sem_op(off, w), ref), '%s = %s times %s', e, on, off)
    return {'nt': size(spec) >= 4, 'tags': [kind], 'show': shown(e)}
