"""Q23 structure queries"""
from .. import env  # noqa
import re

import numpy as np
import sympy
from hypothesis import strategies as st

from .. import anyexpr as A, sem
from ..core import Discard, Property, ensure, shown
from ..gens import chance, pick
from .q12 import value

from qnet.algebra.core.abstract_algebra import Expression, Operation
from qnet.algebra.core.abstract_quantum_algebra import QuantumDerivative
from qnet.algebra.core.hilbert_space_algebra import FullSpace, HilbertSpace, LocalSpace, ProductSpace, TrivialSpace
from qnet.algebra.core.indexed_operations import IndexedSum
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.operator_algebra import Operator, OperatorTrace
from qnet.algebra.core.scalar_algebra import Scalar
from qnet.algebra.core.state_algebra import Bra, BraKet, KetBra, OperatorTimesKet, State, ZeroKet
from qnet.algebra.core.super_operator_algebra import SuperOperator
from qnet.printing.dot import dotprint
from qnet.printing.treeprinting import print_tree, tree
from qnet.utils.indices import IdxSym, SymbolicLabelBase

PROP = Property('Q23', '')


# ------------------------------------------------------------------ reference
def free(x):
    """symbols that occur outside of the scope of a sum or evaluated derivative that binds them"""
    if isinstance(x, sympy.Basic):
        return {a for a in x.atoms(sympy.Symbol, IdxSym)}
    if isinstance(x, IndexedSum):
        return free(x.term) - {r.index_symbol for r in x.ranges}
    if isinstance(x, QuantumDerivative):
        r = free(x.operand)
        for k in x.vals:
            r -= free(k)
        for v in x.vals.values():
            r |= free(v)
        return r
    return below(x, free)


def bound(x):
    if isinstance(x, IndexedSum):
        return bound(x.term) | {r.index_symbol for r in x.ranges}
    if isinstance(x, QuantumDerivative):
        return set.union(bound(x.operand), *(free(k) for k in x.vals))
    if isinstance(x, sympy.Basic):
        return set()
    return below(x, bound)


def below(x, f):
    if isinstance(x, (tuple, list)):
        return set().union(*(f(y) for y in x))
    if isinstance(x, np.ndarray):
        return set().union(*(f(y) for y in x.ravel()))
    if isinstance(x, SymbolicLabelBase):
        return f(x.expr)
    if isinstance(x, HilbertSpace):
        return set()
    if isinstance(x, Matrix):
        return below(x.matrix, f)
    if isinstance(x, Expression):
        return set().union(*(f(y) for y in list(x.args) + list(x.kwargs.values())))
    if hasattr(x, 'index_symbol'):
        raise ValueError(x)
    return set()


def local(e):
    """names of the local spaces on which the parts of an expression act, None for the full space"""
    if isinstance(e, HilbertSpace):
        return None if e is FullSpace else {h.label for h in e.local_factors}
    if isinstance(e, Scalar) or not isinstance(e, Expression):
        return set()
    if e is ZeroKet:
        return None
    if isinstance(e, OperatorTrace):
        return local(e.operand) - local(e.kwargs['over_space'])
    if isinstance(e, Bra):
        return local(e.ket)
    if isinstance(e, IndexedSum):
        return local(e.term)
    if isinstance(e, Operation):
        out = set()
        for o in e.operands:
            l = local(o)
            if l is None:
                return None
            out |= l
        return out
    if isinstance(e, Matrix):
        out = set()
        for o in e.matrix.ravel():
            out |= local(o)
        return out
    if 'hs' in e.kwargs:
        return local(e.kwargs['hs'])
    return set().union(*(local(a) for a in e.args if isinstance(a, Expression)))


# ------------------------------------------------------------------ symbols
def cheap(case):
    if case['kind'] == 'p' and len(str(case['e'])) > 250:
        case['e'] = ['lind', ['osym', 'A', [0], [['sym', 'y', 'r', 's']]]]
    diffs = [x for x in case.get('post') or [] if x[0].startswith('diff')]
    for x in diffs[1:]:
        case['post'].remove(x)
    for x in diffs[:1]:
        x[2] = 1
    if case['kind'] == 'p' and case.get('post'):
        case['post'] = [x for x in case['post'] if x[0] == 'adjoint']


@st.composite
def sym_case(draw):
    case = draw(A.any_case('oookkbppssmciii', depth=(1, 1, 2, 3)))
    if case['kind'] not in 'ic':
        case['e'] = A.depend(draw, case['e'])
    cheap(case)
    case['wrap'] = draw(st.lists(st.sampled_from(['diff', 'diffat', 'scale', 'elem', 'adjoint']), max_size=2)) if chance(draw, 1, 2) else []
    return case


def wrap(e, how):
    y, z = sympy.Symbol('y', real=True), sympy.Symbol('z', positive=True)
    from ..prog import sym_of
    y, z = sym_of('y', 'r'), sym_of('z', 'p')
    k = A.kind_of(e)
    for h in how:
        if h in ('diff', 'diffat') and y not in free(e):
            continue
        if h in ('diff', 'diffat') and k in 'okbp':
            e = type(e)._derivative_cls(e, derivs={y: 1}) if h == 'diff' else type(e)._derivative_cls(e, derivs={y: 1}, vals={y: z + 1})
        elif h == 'scale' and k in 'okbps':
            e = sympy.Symbol('q', real=True) * e
        elif h == 'elem' and k in 'os':
            e = Matrix([[e, z], [sympy.Integer(0), e]])
            k = 'm'
        elif h == 'adjoint' and k in 'okbp':
            e = e.adjoint()
        if not isinstance(e, Expression):
            raise Discard('a number')
        k = A.kind_of(e)
    return e


@PROP.part('symbols', sym_case, quick=7000, rule='the expression has a free or a bound symbol; non-free symbols are varied')
def symbols(case):
    w = A.world(case)
    e = wrap(A.build(case, w), case['wrap'])
    subs = A.subexprs(e)
    for s in subs[:1] + subs[-3:]:
        f, b = free(s), bound(s)
        if any(isinstance(d, QuantumDerivative) and d.vals and any(isinstance(x, QuantumDerivative) for x in A.subexprs(d.operand)) for d in A.subexprs(s)):
            # a derivative of a derivative that may not depend on everything any more
            ensure(s.free_symbols <= f, 'free symbols of %r: %s, but only %s occur', s, s.free_symbols, f)
            f = s.free_symbols
        ensure(s.free_symbols == f, 'free symbols of %r: %s, expected %s', s, s.free_symbols, f)
        ensure(s.bound_symbols == b, 'bound symbols of %r: %s, expected %s', s, s.bound_symbols, b)
        ensure(s.all_symbols == f | b, 'all symbols of %r: %s, expected %s', s, s.all_symbols, f | b)
    f, b = free(e), bound(e)
    tags = A.classes(e)
    if A.nodes(e) < 60 and not any(isinstance(s, QuantumDerivative) for s in subs):
        try:
            v = value(e, w)
        except sem.SemError:
            raise Discard('no value')
        over = {}
        for n, x in (('y', 0.83), ('z', 1.71), ('q', -0.6), ('x', 0.29), ('t', 2.3)):
            if not any(s.name == n for s in f if isinstance(s, sympy.Symbol) and not isinstance(s, IdxSym)):
                over[n] = x
        v2 = value(e, w.with_env(**over))
        ensure(A.same_value(v, v2, 1e-7), '%s depends on one of %s, but its free symbols are %s', e, sorted(over), f)
        tags.append('varied')
    return {'nt': bool(f or b), 'tags': tags + ['bound'] * bool(b), 'show': shown(e)}


# ------------------------------------------------------------------ spaces
@st.composite
def space_case(draw):
    case = draw(A.any_case('oooookkbpppsmci', depth=(1, 2, 2, 3), coh=chance(draw, 1, 4)))
    cheap(case)
    return case


@PROP.part('spaces', space_case, quick=6000, rule='the expression acts on at least one local space; its value is compared with its reduction to this space')
def spaces(case):
    w = A.world(case)
    e = A.build(case, w)
    for s in A.subexprs(e):
        if isinstance(s, HilbertSpace):
            continue
        if not hasattr(type(s), 'space'):
            ensure(A.kind_of(s) == 'c', '%r has no space', s)
            continue
        l = local(s)
        sp = s.space
        ensure(isinstance(sp, HilbertSpace), 'the space of %s is %r', s, sp)
        if l is None:
            ensure(sp is FullSpace, 'the space of %s is %s, expected the full space', s, sp)
            continue
        ensure(sp is not FullSpace, 'the space of %s is the full space, expected %s', s, l)
        ensure({h.label for h in sp.local_factors} == l and len(sp.local_factors) == len(l), 'the space of %s is %s, expected %s', s, sp, sorted(l))
        kind = not l
        ensure(sp is TrivialSpace if kind else isinstance(sp, LocalSpace if len(l) == 1 else ProductSpace), 'the space of %s is %r', s, sp)
        ensure(all(any(h == x.hs for x in w.spaces) for h in sp.local_factors), 'the space of %s is %r', s, sp)
        if len(l) > 1:
            ensure(sp == ProductSpace.create(*(x.hs for x in w.spaces if x.hs.label in l)), 'the space of %s is %s', s, sp)
    tags = A.classes(e)
    k = A.kind_of(e)
    if k in 'op' and A.nodes(e) < 80:
        l = local(e)
        outside = [x for x in w.spaces if x.hs.label not in l]
        if outside:
            v = sem.op(e, w) if k == 'o' else sem.superop(e, w)
            if np.all(np.isfinite(v)):
                acts_trivially(v, w, l, k, e)
                tags.append('reduced')
    l = local(e) if hasattr(type(e), 'space') else set()
    return {'nt': bool(l), 'tags': tags, 'show': shown(e)}


def acts_trivially(v, w, l, k, e):
    dims = [w.dim([x.label]) if hasattr(x, 'label') else w.dim([x]) for x in w.spaces]
    n = len(dims)
    m = 2 if k == 'o' else 4
    t = v.reshape(dims * m)
    for i, x in enumerate(w.spaces):
        if x.hs.label in l:
            continue
        # t must be delta (x) rest in the axes i and i+n (and i+2n and i+3n)
        ax = [i + j * n for j in range(m)]
        a = np.moveaxis(t, ax, list(range(m)))
        d = dims[i]
        if k == 'o':
            ref = np.einsum('ij,...->ij...', np.eye(d), a[0, 0])
        else:
            ref = np.einsum('ik,jl,...->ijkl...', np.eye(d), np.eye(d), a[0, 0, 0, 0])
        ensure(np.max(np.abs(a - ref), initial=0) < 1e-7 * max(1, np.max(np.abs(a), initial=0)), '%s acts on %s, but its space is %s', e, x.hs, e.space)


# ------------------------------------------------------------------ graphs and trees
@st.composite
def tree_case(draw):
    case = draw(A.any_case('oookkbppsscci', depth=(1, 2, 3, 3), post=chance(draw, 1, 2)))
    cheap(case)
    case['depth'] = pick(draw, [None, None, None, 0, 1, 2, 3])
    case['uni'] = draw(st.booleans())
    case['id'] = pick(draw, ['default', 'default', 'str', 'const'])
    case['leaf'] = draw(st.booleans())
    return case


NODE = re.compile(r'^"([^"]*)" \[("[^"]*"="[^"]*"(?:, "[^"]*"="[^"]*")*)\];$', re.M)
EDGE = re.compile(r'^"([^"]*)" -> "([^"]*)"$', re.M)
LABEL = re.compile(r'"label"="([^"]*)"(?:, |$)')


def operands(e):
    return list(e.operands) if isinstance(e, Operation) else []


def parse_dot(s):
    head, rest = s.split('# Nodes #')
    ns, es = rest.split('# Edges #')
    nodes, edges = [], []
    for m in NODE.finditer(ns):
        nodes.append((m.group(1), m.group(2)))
    for m in EDGE.finditer(es):
        edges.append((m.group(1), m.group(2)))
    ensure(len(nodes) == len(re.findall(r'^"', ns, re.M)) and len(edges) == len(re.findall(r'^"', es, re.M)), 'malformed graph:\n%s', s)
    return nodes, edges, head


@PROP.part('dot', tree_case, quick=5000, rule='the expression has at least four occurrences of sub-expressions; unique sub-expressions are drawn once with repeat=False')
def dot(case):
    w = A.world(case)
    e = A.build(case, w)
    maxdepth = case['depth']
    seen = []

    def label(x, leaf):
        seen.append((x, leaf))
        return 'n%d' % (len(seen) - 1)
    idf = {'default': {}, 'str': {'idfunc': str}, 'const': {'idfunc': lambda x: 'n'}}[case['id']]
    nodes, edges, head = parse_dot(dotprint(e, labelfunc=label, maxdepth=maxdepth, rankdir='LR',
                                            styles=[(lambda x: isinstance(x, Operation), {'shape': 'box', 'color': 'red'}), (lambda x: x is e, {'color': 'blue'})], **idf))
    ensure('"rankdir"="LR"' in head, 'graph attributes missing')
    ensure(len(nodes) == len(seen) and len({n for n, _ in nodes}) == len(nodes), '%d nodes, %d distinct, %d labels', len(nodes), len({n for n, _ in nodes}), len(seen))
    by_id = {}
    for n, at in nodes:
        lab = int(LABEL.search(at).group(1)[1:])
        by_id[n] = seen[lab]
        x = seen[lab][0]
        style = {'label': 'n%d' % lab}
        if isinstance(x, Operation):
            style.update(shape='box', color='red')
        if x is e:
            style['color'] = 'blue'
        ensure(at == ', '.join('"%s"="%s"' % kv for kv in sorted(style.items())), 'node attributes %s, expected %s', at, style)
    kids = {}
    parents = {}
    for a, b in edges:
        ensure(a in by_id and b in by_id, 'edge %s -> %s between unknown nodes', a, b)
        kids.setdefault(a, []).append(b)
        ensure(b not in parents, 'two parents of %s', b)
        parents[b] = a
    roots = [n for n in by_id if n not in parents]
    ensure(len(roots) == 1, '%d roots', len(roots))
    count = 0

    def walk(n, x, level):
        nonlocal count
        count += 1
        y, leaf = by_id[n]
        ensure(y is x or y == x, 'node for %s instead of %s', y, x)
        ops = operands(x) if maxdepth is None or level < maxdepth else []
        ensure(leaf == (not ops), '%s drawn as %s', x, 'a leaf' if leaf else 'an inner node')
        ks = kids.get(n, [])
        ensure(len(ks) == len(ops), '%s drawn with %d children instead of %d', x, len(ks), len(ops))
        for k, o in zip(ks, ops):
            walk(k, o, level + 1)
    walk(roots[0], e, 0)
    ensure(count == len(nodes), '%d nodes reached of %d', count, len(nodes))
    # default labels
    n2, e2, _ = parse_dot(dotprint(e, maxdepth=maxdepth, **idf))
    ensure([n for n, _ in n2] == [n for n, _ in nodes] and e2 == edges, 'the graph depends on the labels')
    for (n, at) in n2:
        x, leaf = by_id[n]
        exp = str(x) if leaf else type(x).__name__ + ('(..., %s)' % ', '.join('%s=%s' % kv for kv in x.kwargs.items()) if x.kwargs else '')
        ensure(at == '"label"="%s"' % exp, 'label %s of %s, expected %s', at, x, exp)
    # unique nodes
    if case['id'] == 'default':
        seen.clear()
        nodes, edges, head = parse_dot(dotprint(e, labelfunc=label, repeat=False, **idf))
        uniq, levels = [], [e]
        while levels:
            x = levels.pop(0)
            if not any(type(x) is type(y) and hash(x) == hash(y) and x == y for y in uniq):
                uniq.append(x)
                levels += operands(x)
        ensure(len(set((n, LABEL.sub('', at)) for n, at in nodes)) == len(uniq), '%d nodes for %d unique sub-expressions of %s', len(nodes), len(uniq), e)
        ensure(len({n for n, _ in nodes}) == len(uniq), '%d different nodes for %d unique sub-expressions', len({n for n, _ in nodes}), len(uniq))
        got = [(n, seen[int(LABEL.search(at).group(1)[1:])][0]) for n, at in nodes]
        kids = {}
        for a, b in edges:
            kids.setdefault(a, []).append(b)
        ids = dict(got)
        for n, x in ids.items():
            ks = kids.get(n, [])
            ensure(len(ks) == len(operands(x)) and all(ids[k] == o for k, o in zip(ks, operands(x))), 'with repeat=False, %s is drawn with children %s', x,
                   [str(ids.get(k)) for k in ks])
    return {'nt': count > 3, 'tags': A.classes(e) + ['depth %s' % maxdepth, case['id']], 'show': shown(e)}


def ref_tree(e, depth, level=0):
    ops = operands(e)
    if depth is not None and level >= depth:
        ops = []
    return [(level, e)] + [y for o in ops for y in ref_tree(o, depth, level + 1)]


@PROP.part('tree', tree_case, quick=4000, rule='the expression has at least four occurrences of sub-expressions')
def tree_(case):
    w = A.world(case)
    e = A.build(case, w)
    depth = case['depth']
    text = tree(e, unicode=case['uni'], depth=depth, srepr_leaves=case['leaf'])
    lines = text.split('\n')
    ensure(print_tree(e, unicode=case['uni'], depth=depth, srepr_leaves=case['leaf'], _print=False) == lines, 'tree and print_tree differ')
    ref = ref_tree(e, depth)
    ensure(len(lines) == len(ref), '%d lines for %d sub-expressions:\n%s', len(lines), len(ref), text)
    draw = ('\u251c\u2500 ', '\u2514\u2500 ', '\u2502') if case['uni'] else ('+- ', '+- ', '|')
    for i, (line, (level, x)) in enumerate(zip(lines, ref)):
        # is there a later sibling of this node and of its ancestors?
        def later(lv):
            for l2, _ in ref[i + 1:]:
                if l2 < lv:
                    return False
                if l2 == lv:
                    return True
            return False
        if level == 0:
            pre = '. '
        else:
            pre = '  ' + ''.join((draw[2] if later(lv) else ' ') + '  ' for lv in range(1, level))
            pre += draw[0] if later(level) else draw[1]
        ensure(line.startswith(pre), 'line %d of the tree at level %d should start with %r:\n%s', i, level, pre, text)
        rest = line[len(pre):]
        if x.args or x.kwargs:
            name = rest.split('(')[0]
            ensure(name == type(x).__name__ and rest.endswith(')'), 'line %d of the tree should show a %s:\n%s', i, type(x).__name__, text)
        else:
            ensure(rest, 'line %d of the tree is empty:\n%s', i, text)
    return {'nt': len(ref) > 3, 'tags': A.classes(e) + ['depth %s' % depth], 'show': shown(e)}
