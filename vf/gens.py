"""Hypothesis strategies for worlds and typed programs (JSON specs interpreted by vf.prog)"""
from . import env  # noqa
from hypothesis import strategies as st

LABELS = ['1', '2', 'q', 'b', 'a', 'tls', '10', 'A_1', 'K', '0']
BASES = {2: [['g', 'e'], ['e', 'g'], ['0', '1'], ['H', 'V']], 3: [['g', 'e', 'r'], ['a', 'b', 'c'], ['2', '1', '0']]}


def pick(draw, xs):
    return draw(st.sampled_from(xs))


def chance(draw, num, den):
    """True with probability about num/den; shrinks to False"""
    return draw(st.integers(0, den - 1)) >= den - num


@st.composite
def space_js(draw, label, kinds, maxdim=3, plain=False):
    k = pick(draw, kinds)
    js = {'k': k, 'l': label}
    if k == 'L':
        d = draw(st.integers(2, maxdim))
        js['d'] = d
        if d in BASES and chance(draw, 1, 2):
            js['b'] = pick(draw, BASES[d])
    elif k == 'S':
        js['s2'] = draw(st.integers(1, min(3, maxdim - 1)))
        if js['s2'] == 1 and chance(draw, 1, 4):
            js['b'] = pick(draw, [['-', '+'], ['down', 'up']])
    if not plain:
        if chance(draw, 1, 5):
            js['o'] = draw(st.integers(0, 3))
        if chance(draw, 1, 12) and k == 'F':
            js['ids'] = [['Destroy', 'b'], ['Create', 'b']]
    return js


@st.composite
def world_js(draw, nmax=3, kinds=('L', 'S'), maxD=18, nmin=1, maxdim=3, plain=False, labels=None):
    n = draw(st.integers(nmin, nmax))
    labs = draw(st.permutations(labels or LABELS))[:n]
    out = []
    D = 1
    for lb in labs:
        md = maxdim
        while md > 2 and D * md * 2 ** (n - len(out) - 1) > maxD:
            md -= 1
        js = draw(space_js(lb, list(kinds), maxdim=md, plain=plain))
        D *= js.get('d', js.get('s2', 2) + 1)
        out.append(js)
    return out


class Ctx:
    """What a program may use"""

    def __init__(self, spaces, ladder=True, trace=True, pinv=True, kets=True, sops=False, amp=False, symargs=False,
                 scalars='full', coh=False, base=3, symbols=('A', 'B', 'C'), bigsyms=True, pow=True):
        self.spaces = spaces
        self.ladder, self.trace, self.pinv, self.kets, self.sops, self.amp = ladder, trace, pinv, kets, sops, amp
        self.symargs = symargs
        self.scalars = scalars
        self.coh = coh
        self.base = base
        self.symbols = symbols
        self.bigsyms = bigsyms
        self.pow = pow

    def n_levels(self, i):
        js = self.spaces[i]
        return js['d'] if js['k'] == 'L' else js['s2'] + 1 if js['k'] == 'S' else self.base


NUMFORMS = ['p', 's', 'v']


@st.composite
def scalar_leaf(draw, ctx=None):
    c = draw(st.integers(0, 9))
    form = pick(draw, NUMFORMS)
    if c <= 3:
        return ['i', draw(st.sampled_from([2, 1, -1, 3, -2, 0])), form]
    if c == 4:
        return ['q', draw(st.sampled_from([1, -1, 3])), draw(st.sampled_from([2, 3])), form]
    if c == 5:
        return ['z', draw(st.sampled_from([0, 1, -1])), draw(st.sampled_from([1, -1, 2])), form]
    if c == 6:
        return ['f', draw(st.sampled_from([0.5, 1.5, -0.25])), form]
    return ['sym', draw(st.sampled_from(['x', 'y', 'z', 'w'])), draw(st.sampled_from(['c', 'r', 'p'])), pick(draw, ['s', 'v'])]


def fixkinds(s):
    """a symbol name has one fixed kind: x complex, y real, z positive, w complex"""
    if isinstance(s, list):
        if s and s[0] == 'sym' and len(s) == 4 and s[1] in KINDS:
            return ['sym', s[1], KINDS[s[1]], s[3]]
        return [fixkinds(x) for x in s]
    return s


KINDS = {'x': 'c', 'y': 'r', 'z': 'p', 'w': 'c'}


@st.composite
def scalar(draw, ctx=None, depth=1):
    if depth <= 0 or chance(draw, 1, 2):
        return draw(scalar_leaf(ctx))
    c = pick(draw, ['+', '*', '-', 'conj', 'neg', '**', 'exp', '/', 'bk'])
    if c in '+*' and c != '**':
        return [c, draw(st.lists(scalar(ctx, depth - 1), min_size=2, max_size=3))]
    if c == '-':
        return ['-', draw(scalar(ctx, depth - 1)), draw(scalar(ctx, depth - 1))]
    if c == '/':
        return ['/', draw(scalar(ctx, depth - 1)), draw(scalar_leaf(ctx))]
    if c == '**':
        return ['**', draw(scalar(ctx, depth - 1)), draw(st.integers(0, 3))]
    if c == 'exp':
        return ['exp', ['*', [['i', 1, 's'], ['sym', 'y', 'r', 's']]]]
    if c == 'bk' and ctx is not None and ctx.kets:
        i = draw(st.integers(0, len(ctx.spaces) - 1))
        return ['bk', draw(ket_leaf(ctx, [i])), draw(ket_leaf(ctx, [i]))]
    if c == 'conj':
        x = draw(scalar(ctx, depth - 1))
        return ['conj', force_obj(x)]
    return ['neg', draw(scalar(ctx, depth - 1))]


def force_obj(x):
    """python int has .conjugate() as well, keep as is"""
    return x


@st.composite
def amplitude(draw):
    """small amplitude for displacement/squeezing"""
    c = draw(st.integers(0, 4))
    form = pick(draw, ['s', 'v'])
    if c <= 1:
        return ['sym', pick(draw, ['al', 'be']), 'c', form]
    if c == 2:
        return ['q', pick(draw, [1, -1]), pick(draw, [3, 4]), form]
    if c == 3:
        return ['*', [['z', 0, 1, 's'], ['q', 1, pick(draw, [3, 5]), 's']]]
    return ['i', 0, form]


def subset(draw, ctx, max_n=3):
    n = len(ctx.spaces)
    k = draw(st.integers(1, min(n, max_n)))
    if k == n:
        return list(range(n))
    return sorted(draw(st.permutations(list(range(n))))[:k])


@st.composite
def op_leaf(draw, ctx, allowed=None):
    """allowed: list of space indices the operator may act on"""
    idxs = list(range(len(ctx.spaces))) if allowed is None else list(allowed)
    if not idxs:
        return pick(draw, [['id'], ['id'], ['zero']])
    i = pick(draw, idxs)
    kind = ctx.spaces[i]['k']
    opts = ['osym', 'osym', 'osym', 'sigma', 'sigma', 'proj']
    if ctx.bigsyms and len(idxs) > 1:
        opts += ['osymbig']
    if kind == 'S':
        opts += ['jz', 'jp', 'jm'] * 2
    if kind == 'F':
        if ctx.ladder:
            opts += ['create', 'destroy'] * 3
        if ctx.amp:
            opts += ['phase', 'disp', 'disp', 'sq']
        else:
            opts += ['phase']
    opts += ['id', 'zero'] if chance(draw, 1, 3) else []
    t = pick(draw, opts)
    if t == 'osym':
        r = ['osym', pick(draw, list(ctx.symbols)), [i]]
        if ctx.symargs and chance(draw, 1, 2):
            r.append(draw(st.lists(scalar_leaf(ctx), min_size=1, max_size=2)))
        return r
    if t == 'osymbig':
        k = draw(st.integers(2, len(idxs)))
        return ['osym', pick(draw, list(ctx.symbols)), sorted(draw(st.permutations(idxs))[:k])]
    if t == 'sigma':
        nl = ctx.n_levels(i)
        return ['sigma', i, draw(st.integers(0, nl - 1)), draw(st.integers(0, nl - 1)), draw(st.integers(0, 1))]
    if t == 'proj':
        return ['proj', i, draw(st.integers(0, ctx.n_levels(i) - 1)), draw(st.integers(0, 1))]
    if t in ('jz', 'jp', 'jm', 'create', 'destroy'):
        return [t, i]
    if t == 'phase':
        return ['phase', i, pick(draw, [['sym', 'y', 'r', 's'], ['sym', 'z', 'p', 'v'], ['q', 1, 3, 's'], ['f', 0.7, 'p'],
                                        ['i', 0, 'p'], ['*', [['sym', 'y', 'r', 's'], ['i', -1, 's']]]]
                                  # a phase that is not real does not map coherent states to (normalized) coherent states
                                  + ([] if ctx.coh else [['sym', 'x', 'c', 's'], ['z', 1, 1, 's']]))]
    if t in ('disp', 'sq'):
        return [t, i, draw(amplitude())]
    return [t]


@st.composite
def op(draw, ctx, depth=3, allowed=None):
    if depth <= 0 or chance(draw, 1, 6):
        return draw(op_leaf(ctx, allowed))
    opts = ['omul'] * 5 + ['oadd'] * 3 + ['osub', 'smul', 'smul', 'muls', 'adj', 'adj', 'neg', 'odiv', 'adds', 'comm', 'comm', 'pmcc']
    if ctx.pow:
        opts += ['opow']
    if ctx.trace:
        opts += ['tr', 'tr']
    if ctx.pinv:
        opts += ['pinv', 'nsp']
    if ctx.kets:
        opts += ['kb']
    if ctx.sops:
        opts += ['sopop']
    t = pick(draw, opts)
    sub = op(ctx, depth - 1, allowed)
    if t in ('omul', 'oadd'):
        return [t, draw(st.lists(sub, min_size=2, max_size=4 if depth <= 2 else 3)), draw(st.integers(0, 1))]
    if t == 'osub' or t == 'comm':
        return [t, draw(sub), draw(sub)]
    if t == 'smul':
        return [t, draw(scalar(ctx, 1)), draw(sub)]
    if t == 'muls':
        return [t, draw(sub), draw(scalar(ctx, 1))]
    if t == 'odiv':
        return [t, draw(sub), draw(scalar_leaf(ctx))]
    if t == 'adds':
        return [t, draw(sub), draw(scalar_leaf(ctx)), draw(st.integers(0, 1))]
    if t == 'neg':
        return [t, draw(sub)]
    if t == 'adj':
        return [t, draw(sub), draw(st.integers(0, 1))]
    if t == 'opow':
        return [t, draw(op(ctx, min(depth - 1, 1), allowed)), draw(st.integers(0, 3))]
    if t == 'pmcc':
        return [t, pick(draw, [1, -1]), draw(sub)]
    if t == 'pinv':
        return [t, draw(op(ctx, min(depth - 1, 1), allowed)), draw(st.integers(0, 1))]
    if t == 'nsp':
        return [t, draw(op(ctx, min(depth - 1, 1), allowed))]
    if t == 'tr':
        idxs = list(range(len(ctx.spaces))) if allowed is None else list(allowed)
        fin = [i for i in idxs if ctx.spaces[i]['k'] != 'F']
        if not fin:
            return draw(sub)
        k = draw(st.integers(1, len(fin)))
        over = sorted(draw(st.permutations(fin))[:k])
        return ['tr', over, draw(sub)]
    if t == 'kb':
        idxs = list(range(len(ctx.spaces))) if allowed is None else list(allowed)
        if not idxs:
            return draw(op_leaf(ctx, allowed))
        k = draw(st.integers(1, min(2, len(idxs))))
        sp = sorted(draw(st.permutations(idxs))[:k])
        return ['kb', draw(ket(ctx, sp, min(depth - 1, 1))), draw(ket(ctx, sp, min(depth - 1, 1)))]
    if t == 'sopop':
        return ['sopop', draw(sop(ctx, depth - 1)), draw(sub)]
    raise ValueError(t)


@st.composite
def ket_leaf(draw, ctx, sp):
    """ket leaf(s) on exactly the spaces sp"""
    sp = list(sp)
    if not sp:
        return ['triv']
    if len(sp) > 1:
        if chance(draw, 1, 3):
            return ['ksym', pick(draw, ['Psi', 'Phi', 'Xi']), sp]
        k = draw(st.integers(1, len(sp) - 1))
        perm = draw(st.permutations(sp))
        a, b = sorted(perm[:k]), sorted(perm[k:])
        return ['ktens', [draw(ket_leaf(ctx, a)), draw(ket_leaf(ctx, b))], draw(st.integers(0, 1))]
    i = sp[0]
    opts = ['bket', 'bket', 'bket', 'ksym', 'ksym']
    if ctx.coh and ctx.spaces[i]['k'] == 'F':
        opts += ['coh'] * 2
    t = pick(draw, opts)
    if t == 'bket':
        return ['bket', i, draw(st.integers(0, ctx.n_levels(i) - 1)), draw(st.integers(0, 1))]
    if t == 'coh':
        return ['coh', i, draw(amplitude())]
    r = ['ksym', pick(draw, ['Psi', 'Phi', 'Xi']), [i]]
    if ctx.symargs and chance(draw, 1, 2):
        r.append(draw(st.lists(scalar_leaf(ctx), min_size=1, max_size=2)))
    return r


@st.composite
def ket(draw, ctx, sp, depth=3):
    sp = list(sp)
    if depth <= 0 or chance(draw, 1, 6):
        return draw(ket_leaf(ctx, sp))
    opts = ['kadd', 'kadd', 'ksub', 'ksmul', 'ksmul', 'kmuls', 'kneg', 'kdiv', 'kdagdag', 'opket', 'opket', 'opket', 'brop', 'kbk',
            'bradd', 'brasub', 'brasmul', 'bramuls', 'bradiv', 'braneg']
    if len(sp) > 1:
        opts += ['ktens'] * 4 + ['bratens']
    t = pick(draw, opts)
    sub = ket(ctx, sp, depth - 1)
    if t == 'kadd':
        return [t, draw(st.lists(sub, min_size=2, max_size=3)), draw(st.integers(0, 1))]
    if t == 'ksub':
        return [t, draw(sub), draw(sub)]
    if t == 'ksmul':
        return [t, draw(scalar(ctx, 1)), draw(sub)]
    if t == 'kmuls':
        return [t, draw(sub), draw(scalar(ctx, 1))]
    if t == 'kdiv':
        return [t, draw(sub), draw(scalar_leaf(ctx))]
    if t in ('kneg', 'kdagdag'):
        return [t, draw(sub)]
    if t == 'opket':
        return [t, draw(op(ctx, depth - 1, allowed=sp)), draw(sub)]
    if t == 'brop':
        return [t, draw(sub), draw(op(ctx, depth - 1, allowed=sp))]
    if t == 'kbk':
        return [t, draw(ket(ctx, sp, min(depth - 1, 1))), draw(ket(ctx, sp, min(depth - 1, 1))), draw(sub)]
    if t == 'bradd':
        return [t, draw(sub), draw(sub), draw(st.integers(0, 1))]
    if t == 'brasub':
        return [t, draw(sub), draw(sub)]
    if t == 'braneg':
        return [t, draw(sub)]
    if t in ('brasmul', 'bramuls'):
        return [t, draw(sub), draw(scalar(ctx, 1))]
    if t == 'bradiv':
        return [t, draw(sub), draw(scalar_leaf(ctx))]
    if t == 'bratens':
        k = draw(st.integers(1, len(sp) - 1))
        perm = draw(st.permutations(sp))
        a, b = sorted(perm[:k]), sorted(perm[k:])
        return [t, draw(ket(ctx, a, depth - 1)), draw(ket(ctx, b, depth - 1)), draw(st.integers(0, 1))]
    if t == 'ktens':
        k = draw(st.integers(1, len(sp) - 1))
        perm = draw(st.permutations(sp))
        a, b = sorted(perm[:k]), sorted(perm[k:])
        return [t, [draw(ket(ctx, a, depth - 1)), draw(ket(ctx, b, depth - 1))], draw(st.integers(0, 1))]
    raise ValueError(t)


@st.composite
def sop(draw, ctx, depth=2):
    if depth <= 0 or chance(draw, 1, 6):
        t = pick(draw, ['ssym', 'ssym', 'pre', 'post', 'sid', 'szero'] if chance(draw, 1, 4) else ['ssym', 'pre', 'post'])
        if t == 'ssym':
            return [t, pick(draw, ['S', 'T']), subset(draw, ctx, 2)]
        if t in ('pre', 'post'):
            return [t, draw(op(ctx, 1))]
        return [t]
    opts = ['stimes'] * 4 + ['sadd'] * 3 + ['ssub', 'ssmul', 'ssmul', 'sneg', 'sadj', 'sadj', 'scomm', 'sacomm', 'scomm2', 'lind', 'liou',
                                            'pre', 'post', 'sdiv', 'spow']
    t = pick(draw, opts)
    sub = sop(ctx, depth - 1)
    if t in ('stimes', 'sadd'):
        return [t, draw(st.lists(sub, min_size=2, max_size=3)), draw(st.integers(0, 1))]
    if t == 'ssub':
        return [t, draw(sub), draw(sub)]
    if t == 'ssmul':
        return [t, draw(scalar(ctx, 1)), draw(sub)]
    if t == 'sdiv':
        return [t, draw(sub), draw(scalar_leaf(ctx))]
    if t in ('sneg', 'sadj'):
        return [t, draw(sub)]
    if t == 'spow':
        return [t, draw(sop(ctx, min(depth - 1, 1))), draw(st.integers(0, 2))]
    if t in ('scomm', 'sacomm', 'lind', 'pre', 'post'):
        return [t, draw(op(ctx, min(depth, 2)))]
    if t == 'scomm2':
        return [t, draw(op(ctx, 1)), draw(op(ctx, 1))]
    if t == 'liou':
        return [t, draw(op(ctx, 1)), draw(st.lists(op(ctx, 1), max_size=2))]
    raise ValueError(t)
