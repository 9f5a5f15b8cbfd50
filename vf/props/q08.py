"""Q08 permutation utilities"""
from itertools import permutations, product

from hypothesis import strategies as st

from .. import env  # noqa
from ..core import Discard, Property, ensure, fail
from ..gens import chance, pick

from qnet.algebra.core.circuit_algebra import (
    CIdentity, CPermutation, CircuitZero, Concatenation, SeriesProduct, circuit_identity, extract_channel, map_channels)
from qnet.utils.permutations import (
    BadPermutationError, block_perm_and_perms_within_blocks, check_permutation, compose_permutations, concatenate_permutations,
    full_block_perm, invert_permutation, permutation_from_block_permutations, permutation_from_disjoint_cycles,
    permutation_to_block_permutations, permutation_to_disjoint_cycles, permute)

PROP = Property('Q08', '')


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k, ) + r


def is_perm(p, n):
    return isinstance(p, tuple) and len(p) == n and sorted(p) == list(range(n)) and all(type(x) is int for x in p)


def circuit_perm(c):
    """images of a permutation circuit"""
    n = type(c).__name__
    if n == 'CIdentity':
        return (0, )
    if n == 'CircuitZero':
        return ()
    if n == 'Concatenation':
        out = ()
        for o in c.operands:
            out += tuple(x + len(out) for x in circuit_perm(o))
        return out
    if n == 'CPermutation':
        return tuple(c.permutation)
    fail('%s is not a permutation circuit', c)


def check_one(p):
    n = len(p)
    ensure(check_permutation(p) is True, 'check_permutation%s', p)
    inv = invert_permutation(p)
    ensure(is_perm(inv, n) and all(inv[p[i]] == i for i in range(n)), 'invert_permutation(%s) = %s', p, inv)
    ensure(compose_permutations(p, inv) == tuple(range(n)) == compose_permutations(inv, p), 'composition with the inverse of %s', p)
    cyc = permutation_to_disjoint_cycles(p)
    flat = [x for c in cyc for x in c]
    ensure(sorted(flat) == list(range(n)), 'cycles %s of %s are not disjoint and complete', cyc, p)
    for c in cyc:
        ensure(c[0] == min(c) and all(p[c[i]] == c[(i + 1) % len(c)] for i in range(len(c))), 'cycle %s of %s', c, p)
    ensure([c[0] for c in cyc] == sorted(c[0] for c in cyc), 'cycles %s of %s are not sorted', cyc, p)
    ensure(permutation_from_disjoint_cycles(cyc) == p, 'cycles of %s do not give it back', p)
    rot = [list(c[len(c) // 2:]) + list(c[:len(c) // 2]) for c in reversed(cyc)]
    ensure(permutation_from_disjoint_cycles(rot) == p, 'cycles %s do not give %s', rot, p)
    off = [tuple(x + 3 for x in c) for c in rot]
    ensure(permutation_from_disjoint_cycles(off, offset=3) == p, 'cycles %s with offset do not give %s', off, p)
    bl = permutation_to_block_permutations(p)
    k = 0
    exp = []
    start = 0
    for i in range(n):
        k = max(k, p[i])
        if k == i:
            exp.append(tuple(x - start for x in p[start:i + 1]))
            start = i + 1
    ensure([tuple(b) for b in bl] == exp, 'block permutations %s of %s, expected %s', bl, p, exp)
    ensure(permutation_from_block_permutations(bl) == p, 'blocks of %s do not give it back', p)
    # circuits
    c = CPermutation.create(p)
    ensure(circuit_perm(c) == p and c.cdim == n, 'circuit of %s is %s', p, c)
    ensure(circuit_perm(c.series_inverse()) == inv, 'inverse circuit of %s', p)
    if p != tuple(range(n)):
        ensure(tuple(c.block_structure) == tuple(map(len, exp)), 'block structure %s of %s', c.block_structure, p)
        ensure([circuit_perm(b) for b in c.get_blocks()] == exp, 'blocks %s of %s', c.get_blocks(), p)
    return {'nt': p != tuple(range(n)), 'tags': ['cycles:%d' % len(cyc), 'blocks:%d' % len(bl)]}


@PROP.part('single_exhaustive', cases=lambda: [list(p) for n in range(1, 7) for p in permutations(range(n))],
           rule='not the identity; all permutations with n <= 6')
def single_exhaustive(case):
    return check_one(tuple(case))


def perm(n):
    return st.permutations(list(range(n)))


@st.composite
def blocky(draw, nmax=14):
    """permutations with and without block structure"""
    out = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.integers(1, 5))
        p = list(draw(perm(n)))
        out += [x + len(out) for x in p]
    if chance(draw, 1, 3):
        out = list(draw(perm(draw(st.integers(1, nmax)))))
    return out[:] if sorted(out) == list(range(len(out))) else [0]


@PROP.part('single_random', blocky, quick=4000, rule='not the identity')
def single_random(case):
    return check_one(tuple(case))


def check_pair(a, b):
    n = len(a)
    c = compose_permutations(a, b)
    ensure(is_perm(c, n) and all(c[j] == a[b[j]] for j in range(n)), 'compose_permutations(%s, %s) = %s', a, b, c)
    ensure(invert_permutation(c) == compose_permutations(invert_permutation(b), invert_permutation(a)), 'inverse of a composition')
    seq = ['x%d' % i for i in range(n)]
    for s, t in ((seq, list), (tuple(seq), tuple), (''.join(chr(97 + i) for i in range(n)), str)):
        r = permute(s, a)
        ensure(type(r) is t, 'permute of a %s gave %r', t.__name__, r)
        ensure(len(r) == n and all(r[j] == s[a[j]] for j in range(n)), 'permute(%s, %s) = %s', s, a, r)
        ensure(permute(permute(s, a), b) == permute(s, c), 'permute(permute(s, %s), %s)', a, b)
        ensure(permute(permute(s, a), invert_permutation(a)) == s, 'permute with the inverse of %s', a)
    r = permute(range(n), a)
    ensure(type(r) is list and r == list(a), 'permute(range(%d), %s) = %r', n, a, r)
    s = SeriesProduct.create(CPermutation.create(a), CPermutation.create(b))
    ensure(circuit_perm(s) == c, 'series product of the circuits %s and %s is %s', a, b, s)
    return {'nt': a != b, 'tags': ['n%d' % n]}


@PROP.part('pair_exhaustive', cases=lambda: [[list(a), list(b)] for n in range(1, 5) for a in permutations(range(n))
                                             for b in permutations(range(n))], rule='distinct permutations; all pairs with n <= 4')
def pair_exhaustive(case):
    return check_pair(tuple(case[0]), tuple(case[1]))


@PROP.part('pair_random', lambda: st.integers(2, 12).flatmap(lambda n: st.tuples(perm(n), perm(n)).map(
    lambda t: [list(t[0]), list(t[1])])), quick=2500, rule='distinct permutations')
def pair_random(case):
    return check_pair(tuple(case[0]), tuple(case[1]))


@PROP.part('concat', lambda: st.lists(st.integers(1, 5).flatmap(perm).map(list), min_size=1, max_size=5), quick=1500,
           rule='at least two permutations')
def concat(case):
    ps = [tuple(p) for p in case]
    exp = []
    for p in ps:
        exp += [x + len(exp) for x in p]
    exp = tuple(exp)
    ensure(permutation_from_block_permutations(ps) == exp, 'permutation_from_block_permutations(%s)', ps)
    r = ps[0]
    for p in ps[1:]:
        r = concatenate_permutations(r, p)
    ensure(r == exp, 'concatenate_permutations over %s gave %s', ps, r)
    c = Concatenation.create(*[CPermutation.create(p) for p in ps])
    ensure(circuit_perm(c) == exp, 'concatenation of the circuits %s is %s', ps, c)
    return {'nt': len(ps) > 1, 'tags': []}


def check_blocks(p, bs):
    n, k = len(p), len(bs)
    offs = [sum(bs[:j]) for j in range(k)]
    images = [p[o:o + l] for o, l in zip(offs, bs)]
    mins = [min(i) for i in images]
    bp = tuple(sorted(mins).index(m) for m in mins)
    within = [tuple(sorted(im).index(x) for x in im) for im in images]
    g_bp, g_w = block_perm_and_perms_within_blocks(p, bs)
    ensure(tuple(g_bp) == bp and [tuple(x) for x in g_w] == within,
           'block_perm_and_perms_within_blocks(%s, %s) = %s, %s; expected %s, %s', p, bs, g_bp, g_w, bp, within)
    f = full_block_perm(bp, bs)
    exp = []
    for j in range(k):
        start = sum(bs[i] for i in range(k) if bp[i] < bp[j])
        exp += list(range(start, start + bs[j]))
    ensure(f == tuple(exp), 'full_block_perm(%s, %s) = %s, expected %s', bp, bs, f, exp)
    # the rest of the permutation keeps the order of each block: it is monotonic on the moved blocks
    inner = permutation_from_block_permutations(within)
    rest = compose_permutations(compose_permutations(p, invert_permutation(inner)), invert_permutation(f))
    o = 0
    for j in invert_permutation(bp):
        seg = rest[o:o + bs[j]]
        ensure(list(seg) == sorted(seg), 'splitting %s by %s leaves %s', p, bs, rest)
        o += bs[j]
    # whole-block permutations are recovered exactly
    ensure(block_perm_and_perms_within_blocks(f, bs)[0] == bp, 'block permutation of full_block_perm(%s, %s)', bp, bs)
    whole = compose_permutations(f, inner)
    g2, w2 = block_perm_and_perms_within_blocks(whole, bs)
    ensure(tuple(g2) == bp and [tuple(x) for x in w2] == within, 'splitting the block permutation %s by %s', whole, bs)
    return {'nt': 1 < k < n, 'tags': ['blocks:%d' % k]}


@PROP.part('blocks_exhaustive', cases=lambda: [[list(p), list(bs)] for n in range(1, 6) for p in permutations(range(n))
                                               for bs in compositions(n)], rule='more than one block, one of them larger than one '
           'channel; all permutations and block structures with n <= 5')
def blocks_exhaustive(case):
    return check_blocks(tuple(case[0]), tuple(case[1]))


@st.composite
def blocks_case(draw):
    bs = draw(st.lists(st.integers(1, 4), min_size=1, max_size=5))
    n = sum(bs)
    p = list(draw(perm(n)))
    if chance(draw, 1, 2):
        # a permutation that moves (nearly) whole blocks
        order = draw(perm(len(bs)))
        p = [None] * n
        pos = 0
        offs = [sum(bs[:j]) for j in range(len(bs))]
        for j in order:
            for t, i in enumerate(draw(perm(bs[j]))):
                p[offs[j] + t] = pos + i
            pos += bs[j]
        if chance(draw, 1, 3) and n > 1:
            a, b = draw(perm(n))[:2]
            p[a], p[b] = p[b], p[a]
    return [p, bs]


@PROP.part('blocks_random', blocks_case, quick=4000, rule='more than one block, one of them larger than one channel')
def blocks_random(case):
    return check_blocks(tuple(case[0]), tuple(case[1]))


@st.composite
def map_case(draw):
    n = draw(st.integers(1, 7))
    k = draw(st.integers(0, n))
    return {'n': n, 'm': [[a, b] for a, b in zip(list(draw(perm(n)))[:k], list(draw(perm(n)))[:k])], 'k': draw(st.integers(0, n - 1))}


@PROP.part('channels', map_case, quick=2500, rule='at least one channel is mapped, not all')
def channels(case):
    n, m = case['n'], {a: b for a, b in case['m']}
    p = circuit_perm(map_channels(m, n))
    ensure(is_perm(p, n), 'map_channels(%s, %d) = %s', m, n, p)
    ensure(all(p[a] == b for a, b in m.items()), 'map_channels(%s, %d) = %s', m, n, p)
    rest = [p[i] for i in range(n) if i not in m]
    ensure(rest == sorted(rest), 'map_channels(%s, %d) = %s does not keep the order of the other channels', m, n, p)
    k = case['k']
    q = circuit_perm(extract_channel(k, n))
    ensure(q[k] == n - 1 and [q[i] for i in range(n) if i != k] == list(range(n - 1)), 'extract_channel(%d, %d) = %s', k, n, q)
    return {'nt': 0 < len(m) < n, 'tags': []}


BADS = ['repeat', 'high', 'negative', 'shifted', 'missing']


@st.composite
def bad_case(draw):
    n = draw(st.integers(1, 7))
    p = list(draw(perm(n)))
    k = draw(st.integers(0, n - 1))
    b = pick(draw, BADS)
    if b == 'repeat':
        if n < 2:
            b = 'high'
        else:
            p[k] = p[(k + draw(st.integers(1, n - 1))) % n]
    if b == 'high':
        p[k] = n + draw(st.integers(0, 2))
    elif b == 'negative':
        p[k] = -1 - draw(st.integers(0, n))
    elif b == 'shifted':
        p = [x + 1 for x in p]
    elif b == 'missing':
        p = [x for x in p if x != min(p)] if n > 1 else [1]
    return {'p': p, 'b': b}


@PROP.part('invalid', bad_case, quick=2000, rule='an index list that is not a permutation')
def invalid(case):
    p = tuple(case['p'])
    ensure(sorted(p) != list(range(len(p))), 'generator')
    ensure(check_permutation(p) is False, 'check_permutation(%s)', p)
    n = len(p)
    seq = list(range(n))
    for what, f, errs in [
            ('permute', lambda: permute(seq, p), BadPermutationError),
            ('permutation_to_disjoint_cycles', lambda: permutation_to_disjoint_cycles(p), BadPermutationError),
            ('permutation_to_block_permutations', lambda: permutation_to_block_permutations(p), BadPermutationError),
            ('compose_permutations', lambda: compose_permutations(tuple(seq), p), BadPermutationError),
            ('CPermutation.create', lambda: CPermutation.create(p), BadPermutationError),
            ('invert_permutation', lambda: invert_permutation(p), ValueError)]:
        try:
            r = f()
        except errs:
            continue
        fail('%s accepted %s and gave %s', what, p, r)
    try:
        permute(seq + [0], tuple(seq))
    except ValueError:
        pass
    else:
        fail('permute accepted a sequence of another length')
    return {'nt': True, 'tags': [case['b']]}
