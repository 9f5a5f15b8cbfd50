"""Strategies for circuits"""
from . import env  # noqa
from hypothesis import strategies as st
from .gens import chance, fixkinds, op, op_leaf, pick, scalar_leaf
from .circ import CDIM


def perm_of(draw, n):
    return ['perm', list(draw(st.permutations(list(range(n)))))]


# no angle without a symbol or a float: SymPy does not terminate on unsimplified exact zeros like cos(1)**2 + sin(1)**2 - 1
ANGLES = [['sym', 'y', 'r', 's'], ['f', -0.5, 'p'], ['f', 0.7, 'p'], ['sym', 'z', 'p', 's'], ['i', 0, 's']]
AMPS = [['sym', 'x', 'c', 's'], ['i', 2, 'p'], ['z', 1, -1, 's'], ['sym', 'w', 'c', 's'], ['f', 0.5, 'p'], ['q', 1, 2, 's']]
REALS = [['sym', 'y', 'r', 's'], ['i', 1, 's'], ['q', -1, 2, 's'], ['sym', 'z', 'p', 's'], ['i', 0, 's']]
POS = [['sym', 'z', 'p', 's'], ['i', 2, 's'], ['q', 1, 2, 's']]


@st.composite
def unitary(draw, n, steps=3):
    out = []
    for _ in range(draw(st.integers(0, steps))):
        k = pick(draw, ['ph', 'rot', 'perm'] if n > 1 else ['ph'])
        if k == 'ph':
            out.append(['ph', draw(st.integers(0, n - 1)), pick(draw, ANGLES)])
        elif k == 'rot':
            i, j = draw(st.permutations(list(range(n))))[:2]
            out.append(['rot', i, j, pick(draw, ANGLES)])
        else:
            out.append(['perm', list(draw(st.permutations(list(range(n)))))])
    return ['U', n, out]


@st.composite
def slh_leaf(draw, ctx, n, opS=False):
    u = draw(unitary(n, 3 if n > 1 else 2))
    if opS and chance(draw, 1, 2):
        i = draw(st.integers(0, len(ctx.spaces) - 1))
        u = ['ctrl', i, draw(st.integers(0, ctx.n_levels(i) - 1)), draw(unitary(n, 2)), draw(unitary(n, 2))]
    Ls = []
    for _ in range(n):
        c = draw(st.integers(0, 5))
        if c == 0:
            x = ['zero']
        elif c == 1:
            x = ['smul', pick(draw, AMPS), ['id']]
        elif c == 2:
            x = ['smul', pick(draw, AMPS), draw(op_leaf(ctx))]
        elif c == 3:
            x = ['oadd', [draw(op_leaf(ctx)), ['smul', pick(draw, AMPS), ['id']]], 0]
        else:
            x = draw(op_leaf(ctx))
        Ls.append(x)
    h = draw(op_leaf(ctx))
    H = pick(draw, [['zero'], ['oadd', [h, ['adj', h, 0]], 0], ['smul', pick(draw, REALS), ['oadd', [h, ['adj', h, 0]], 0]],
                    ['omul', [['adj', h, 0], h], 0]])
    return fixkinds(['slh', u, Ls, H])


@st.composite
def component(draw, names=('W', 'Phase', 'BS', 'VA', 'VB'), atoms=()):
    """atoms: labels of the two-level spaces registered for VA / VB"""
    names = [x for x in names if atoms or x not in ('VA', 'VB')]
    t = pick(draw, names)
    args = {}
    label = None if chance(draw, 2, 3) else pick(draw, ['W', 'X1', 'ph', 'bs1'])
    if t == 'W':
        if chance(draw, 3, 4):
            args['displacement'] = pick(draw, AMPS)
    elif t == 'Phase':
        if chance(draw, 3, 4):
            args['phase'] = pick(draw, ANGLES)
    elif t == 'BS':
        if chance(draw, 2, 3):
            args['mixing_angle'] = pick(draw, ANGLES)
    else:
        label = pick(draw, list(atoms))
        if chance(draw, 1, 2):
            args['gamma'] = pick(draw, POS)
        if chance(draw, 1, 2):
            args['Delta'] = pick(draw, REALS)
        if t == 'VB' and chance(draw, 1, 2):
            args['kappa'] = pick(draw, POS)
    return ['comp', t, label, args]


def fixargs(s):
    if isinstance(s, dict):
        return {k: fixkinds(v) for k, v in s.items()}
    if isinstance(s, list):
        return fixkinds([fixargs(x) for x in s])
    return s


class CCtx:
    def __init__(self, ctx=None, syms=True, comps=(), atoms=(), slh=False, opS=False, coh=False, maxn=5):
        self.ctx, self.syms, self.comps, self.atoms, self.slh, self.opS, self.coh, self.maxn = (
            ctx, syms, comps, atoms, slh, opS, coh, maxn)


@st.composite
def cleaf(draw, cc, n):
    if n == 0:
        return ['czero']
    opts = ['perm', 'perm', 'cid', 'map']
    if cc.syms:
        opts += ['csym'] * 6
    if cc.slh:
        opts += ['slh'] * 6
    fit = [c for c in cc.comps if CDIM[c] == n and (cc.atoms or c not in ('VA', 'VB'))]
    if fit:
        opts += ['comp'] * 6
    t = pick(draw, opts)
    if t == 'perm':
        return perm_of(draw, n)
    if t == 'cid':
        return ['cid', n]
    if t == 'map':
        k = draw(st.integers(0, n))
        a = list(draw(st.permutations(list(range(n)))))[:k]
        b = list(draw(st.permutations(list(range(n)))))[:k]
        return ['map', [list(x) for x in zip(a, b)], n]
    if t == 'csym':
        args = [draw(scalar_leaf())] if chance(draw, 1, 6) else []
        return ['csym', pick(draw, ['A', 'B', 'C', 'Q_1']), n, args]
    if t == 'slh':
        return draw(slh_leaf(cc.ctx, n, cc.opS))
    return draw(component([c for c in fit], cc.atoms))


@st.composite
def circuit(draw, cc, n, depth):
    if n == 0:
        return ['czero']
    if depth <= 0 or chance(draw, 1, 8):
        return draw(cleaf(cc, n))
    opts = ['series'] * 5 + ['inv']
    if n > 1:
        opts += ['cat'] * 5
        opts += ['pad']
    if n < cc.maxn:
        opts += ['fb'] * 4
    if cc.coh:
        opts += ['coh']
    t = pick(draw, opts)
    if t == 'series':
        k = pick(draw, [2, 2, 3])
        return [t, [draw(circuit(cc, n, depth - 1)) for _ in range(k)], draw(st.integers(0, 1))]
    if t == 'inv':
        return [t, draw(circuit(cc, n, depth - 1)), draw(st.integers(0, 1))]
    if t == 'cat':
        parts = []
        left = n
        while left > 0:
            k = draw(st.integers(1, left if parts else n - 1))
            parts.append(draw(circuit(cc, k, depth - 1)))
            left -= k
        if chance(draw, 1, 12):
            parts.insert(draw(st.integers(0, len(parts))), ['czero'])
        return [t, parts, draw(st.integers(0, 1))]
    if t == 'pad':
        k = draw(st.integers(1, n - 1))
        return [t, draw(circuit(cc, n - k, depth - 1)), draw(st.integers(0, n - k)), k]
    if t == 'fb':
        c = draw(circuit(cc, n + 1, depth - 1))
        return [t, c, draw(st.integers(0, n)), draw(st.integers(0, n)), draw(st.integers(0, 3))]
    if t == 'coh':
        return [t, draw(circuit(cc, n, depth - 1)), [pick(draw, AMPS + [['i', 0, 'p']]) for _ in range(n)]]
    raise ValueError(t)
