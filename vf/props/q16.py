"""Q16 pattern matching"""
from .. import env  # noqa
import numpy as np
import sympy
from hypothesis import strategies as st

from .. import anyexpr as A
from ..core import Discard, Property, ensure
from ..gens import chance, pick

from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression, QuantumOperation, QuantumSymbol, ScalarTimesQuantumExpression
from qnet.algebra.core.circuit_algebra import Circuit
from qnet.algebra.core.hilbert_space_algebra import HilbertSpace, LocalSpace
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.operator_algebra import IdentityOperator, LocalOperator, Operator, OperatorSymbol
from qnet.algebra.core.scalar_algebra import Scalar, ScalarValue
from qnet.algebra.core.state_algebra import KetSymbol, State
from qnet.algebra.core.super_operator_algebra import SuperOperator
from qnet.algebra.pattern_matching import MatchDict, Pattern, ProtoExpr, match_pattern, pattern, pattern_head, wc

PROP = Property('Q16', '')

HEADS = [Operator, State, SuperOperator, Scalar, Circuit, Expression, QuantumOperation, QuantumSymbol, LocalOperator, ScalarTimesQuantumExpression, HilbertSpace,
         LocalSpace, ScalarValue, (int, str), (sympy.Basic, Scalar), str, Matrix, (OperatorSymbol, KetSymbol)]


def is_op(e):
    return isinstance(e, Operator)


def has_symbols(e):
    return bool(getattr(e, 'free_symbols', ()))


def always(e):
    return True


def never(e):
    return False


def short(e):
    return len(str(e)) < 12


def has_args(e):
    return len(getattr(e, 'args', ())) > 1


CONDS = [always, is_op, has_symbols, short, has_args, never]


# ------------------------------------------------------------------ reference matcher
class P:
    """kind 'exact' (value), 'pat' (head, args, kwargs, name, mode, conds)"""

    def __init__(self, head=None, args=None, kwargs=None, name=None, mode=1, conds=()):
        self.head, self.args, self.kwargs, self.name, self.mode, self.conds = head, args, kwargs, name, mode, tuple(conds)

    def lib(self, how=0):
        args = None if self.args is None else [x.lib(how) if isinstance(x, P) else x for x in self.args]
        kwargs = None if self.kwargs is None else {k: x.lib(how) if isinstance(x, P) else x for k, x in self.kwargs.items()}
        conds = list(self.conds) or None
        if how == 1 and (self.name is None or not self.name.endswith('_')):
            return wc((self.name or '') + {1: '', 2: '__', 3: '___'}[self.mode], self.head, args, kwargs, conditions=conds)
        if how == 2 and not (args is not None and len(args) == 0) and not (kwargs and set(kwargs) & {'mode', 'wc_name', 'conditions'}):
            return pattern(self.head, *(args or ()), mode=self.mode, wc_name=self.name, conditions=conds, **(kwargs or {}))
        return Pattern(self.head, args, kwargs, mode=self.mode, wc_name=self.name, conditions=conds)

    def names(self):
        out = {self.name} - {None}
        for x in list(self.args or ()) + list((self.kwargs or {}).values()):
            if isinstance(x, P):
                out |= x.names()
        return out


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
    return bool(a == b)


def bind(env_, name, val):
    if name is None:
        return True
    if name in env_:
        return same(env_[name], val)
    env_[name] = val
    return True


def ref_match(p, e, env_):
    """extends env_ and returns True, or returns False"""
    if not isinstance(p, P):
        return same(p, e)
    if not ref_single(p, e, env_):
        return False
    return bind(env_, p.name, [e] if p.mode > 1 else e)


def ref_single(p, e, env_):
    if p.head is not None and not isinstance(e, p.head):
        return False
    if not all(c(e) for c in p.conds):
        return False
    if p.args is not None:
        if not hasattr(e, 'args'):
            return False
        args = list(e.args)
        multi = [i for i, x in enumerate(p.args) if isinstance(x, P) and x.mode > 1]
        n = len(p.args)
        if not multi:
            if len(args) != n:
                return False
            parts = [(x, [a]) for x, a in zip(p.args, args)]
        else:
            m, = multi
            k = len(args) - (n - 1)
            if k < (1 if p.args[m].mode == 2 else 0):
                return False
            parts = []
            pos = 0
            for i, x in enumerate(p.args):
                w = k if i == m else 1
                parts.append((x, args[pos:pos + w]))
                pos += w
        for x, part in parts:
            if isinstance(x, P) and x.mode > 1:
                for a in part:
                    if not ref_single(x, a, env_):
                        return False
                if not bind(env_, x.name, list(part)):
                    return False
            elif not ref_match(x, part[0], env_):
                return False
    if p.kwargs is not None:
        if not hasattr(e, 'kwargs'):
            return False
        for k, x in p.kwargs.items():
            if k not in e.kwargs or not ref_match(x, e.kwargs[k], env_):
                return False
    return True


def put_back(p, m, e):
    """the pattern with the bindings in place of the wildcards (where it says anything)"""
    if not isinstance(p, P):
        return p if type(p) is type(e) else e
    if p.name is not None and p.mode == 1:
        # numbers may have been matched as plain numbers or as scalar expressions
        return m[p.name] if type(m[p.name]) is type(e) or not same(m[p.name], e) else e
    if p.args is None or not isinstance(e, Expression):
        return e
    args = []
    pos = 0
    n = len(e.args)
    k = n - (len(p.args) - 1)
    for x in p.args:
        if isinstance(x, P) and x.mode > 1:
            args.extend(e.args[pos:pos + k] if x.name is None else [
                y if i >= k or type(y) is type(e.args[pos + i]) or not same(y, e.args[pos + i]) else e.args[pos + i] for i, y in enumerate(m[x.name])])
            pos += k
        else:
            args.append(put_back(x, m, e.args[pos]))
            pos += 1
    kw = {key: put_back(p.kwargs[key], m, v) if p.kwargs and key in p.kwargs else v for key, v in e.kwargs.items()}
    return type(e)(*args, **kw)


# ------------------------------------------------------------------ patterns from expressions
class Choose:
    def __init__(self, seq):
        self.seq, self.i = list(seq) or [0], 0

    def __call__(self, n):
        r = self.seq[self.i % len(self.seq)] % n
        self.i += 1
        return r


def generalise(e, c, depth=0, names=None):
    """a pattern that matches e (mostly), made by forgetting parts of it"""
    names = [] if names is None else names
    k = c(8)
    structured = isinstance(e, Expression) and not isinstance(e, Matrix)
    if depth == 0 and structured and e.args:
        k = 7
    if k in (0, 1) or (not structured and k < 6):
        return wildcard(e, c, names)
    if k == 2 or not structured or depth > 3:
        return e if not isinstance(e, np.ndarray) else wildcard(e, c, names)
    args = list(e.args)
    mode = c(7)
    if mode in (1, 2, 3) and len(args) >= 1:
        # a run of arguments, on the left or on the right, is taken by one wildcard
        m = c(len(args) + 1)
        left = c(2)
        if left:
            run, rest = args[:m], args[m:]
        else:
            run, rest = args[len(args) - m:], args[:len(args) - m]
        ps = [generalise(a, c, depth + 1, names) for a in rest]
        cl = [type(a) for a in run]
        head = None
        t = c(4)
        if t == 1 and cl:
            head = cl[0] if all(x is cl[0] for x in cl) else tuple(dict.fromkeys(cl))
        elif t == 2:
            head = HEADS[c(len(HEADS))]
        w = P(head, name=None if c(4) == 0 else 'M%d' % depth + pick_name(c), mode=3 if mode == 1 or not run else 2, conds=conds(c))
        ps = [w] + ps if left else ps + [w]
    elif mode == 4:
        ps = None
    else:
        ps = [generalise(a, c, depth + 1, names) for a in args]
    kw = None
    if e.kwargs and c(3):
        kw = {key: generalise(v, c, depth + 1, names) for key, v in e.kwargs.items() if c(4)}
        if not kw:
            kw = None
        elif c(12) == 11:
            kw['missing'] = P(name='q')
    h = c(5)
    head = type(e) if h < 3 else None if h == 3 else HEADS[c(len(HEADS))]
    return P(head, ps, kw, name=None if c(3) else 'n' + pick_name(c), conds=conds(c))


def pick_name(c):
    return 'abc'[c(3)]


def conds(c):
    return [] if c(5) else [CONDS[c(len(CONDS))]]


def wildcard(e, c, names):
    h = c(6)
    head = None if h < 2 else type(e) if h < 5 else HEADS[c(len(HEADS))]
    nm = c(5)
    if nm == 4:
        name = None
    elif nm == 1 and names:
        # the name that an equal expression already has, or any other one
        eq = [n for n, x in names if not isinstance(x, np.ndarray) and not isinstance(e, np.ndarray) and x == e]
        name = eq[0] if eq and c(3) else names[c(len(names))][0]
    else:
        name = 'x%d' % len(names)
    if name is not None:
        names.append((name, e))
    return P(head, name=name, conds=conds(c))


@st.composite
def match_case(draw):
    case = draw(A.any_case('oooookkkbbppssmcci', depth=(1, 1, 2, 2, 3), post=chance(draw, 1, 4)))
    case['c'] = draw(st.lists(st.integers(0, 1000), min_size=6, max_size=40))
    case['at'] = draw(st.integers(0, 6))
    case['how'] = draw(st.integers(0, 2))
    return case


def text(m):
    return {k: str(v) for k, v in m.items()}


def compare(p, lp, e, what):
    env_ = {}
    want = ref_match(p, e, env_)
    got = lp.match(e)
    ensure(isinstance(got, MatchDict), '%r', got)
    ensure(bool(got) == want, '%s %s %s %s%s', lp, 'does not match' if want else 'matches', what, e, '' if want else ', binding %s' % text(got))
    ensure(got.success == want and (want or got.reason), 'success %r, reason %r', got.success, got.reason)
    if want:
        ensure(set(got.keys()) == set(env_) and len(got) == len(env_), '%s matches %s with bindings %s instead of %s', lp, e, text(got), text(env_))
        for k, v in env_.items():
            ensure(same(got[k], v), '%s matches %s with bindings %s instead of %s', lp, e, text(got), text(env_))
        got2 = match_pattern(lp, e)
        ensure(bool(got2) and set(got2) == set(got) and all(same(got2[k], got[k]) for k in got), 'match_pattern gives %s', text(got2))
    return env_ if want else None


def walk(e, out):
    """every sub-expression occurrence, arguments first"""
    if isinstance(e, np.ndarray):
        for x in e.ravel():
            walk(x, out)
    else:
        for a in list(getattr(e, 'args', ())) if not isinstance(e, type) else ():
            walk(a, out)
        for a in list(getattr(e, 'kwargs', {}).values()):
            walk(a, out)
    out.append(e)
    return out


@PROP.part('match', match_case, quick=9000,
           rule='the pattern has at least two nodes, one of them a named wildcard, and is compared with at least two expressions, one of which it matches')
def match(case):
    w = A.world(case)
    e = A.build(case, w)
    subs = [s for s in A.subexprs(e)]
    s0 = [s for s in subs if len(s.args) > 1 or A.nodes(s) > 2 and not isinstance(s, Matrix)] or subs
    s0 = s0[case['at'] % len(s0)]
    if A.nodes(e) > 80:
        raise Discard('cost')
    c = Choose(case['c'])
    p = generalise(s0, c)
    if not isinstance(p, P):
        p = P(args=None, conds=[always]) if c(2) else P(type(s0), list(s0.args) if not isinstance(s0, Matrix) else None)
    lp = p.lib(case['how'])
    ensure(lp.wc_names == p.names(), 'wildcards of %s: %s', lp, lp.wc_names)
    hits = 0
    tests = subs[:12] + ([IdentityOperator, 2, 'A', sympy.Symbol('x')])
    for s in tests:
        b = compare(p, lp, s, 'the expression')
        if b is not None:
            hits += 1
            if isinstance(s, Expression) and not isinstance(s, Matrix) and p.mode == 1:
                back = put_back(p, b, s)
                ensure(back == s, '%s matches %s, but with the bindings %s it is %s', lp, s, text(b), back)
    # search
    occ = walk(e, [])
    want = [s for s in occ if ref_match(p, s, {})]
    got = lp.findall(e)
    ensure(len(got) == len(want) and all(any(x is y or same(x, y) for y in want) for x in got) and all(any(x is y or same(x, y) for y in got) for x in want),
           'findall of %s in %s gives %s instead of %s', lp, e, got, want)
    for x, m in zip(got, lp.finditer(e)):
        m2 = lp.match(x)
        ensure(bool(m) and set(m) == set(m2) and all(same(m[k], m2[k]) for k in m), 'finditer gives %s for %s', text(m), x)
    ensure(len(list(lp.finditer(e))) == len(got), 'finditer gives %d matches, findall %d', len(list(lp.finditer(e))), len(got))
    named = [n for n in p.names()]
    nt = bool(named) and (p.args is not None or p.kwargs is not None) and hits >= 1 and len(subs) > 1
    return {'nt': nt, 'tags': [case['kind'], 'hits %d' % min(hits, 3), 'how %d' % case['how']] + (['multi'] if 'mode' in repr(lp) else []), 'show': repr(lp)[:200]}


# ------------------------------------------------------------------ un-instantiated expressions and plain trees
@st.composite
def tree_case(draw):
    leaf = st.sampled_from(['a', 'b', 'c', 1, 2])
    tree = st.recursive(leaf, lambda x: st.tuples(st.sampled_from('FGH'), st.lists(x, max_size=4), st.dictionaries(st.sampled_from(['k', 'l']), x, max_size=2)).map(list),
                        max_leaves=10)
    return {'a': draw(tree), 'b': draw(tree), 'c': draw(st.lists(st.integers(0, 1000), min_size=1, max_size=30)), 'how': draw(st.integers(0, 2)), 'proto': draw(st.booleans())}


class Node:
    def __init__(self, args, kwargs):
        self.args, self.kwargs = tuple(args), dict(kwargs)

    def __eq__(self, other):
        return type(self) is type(other) and self.args == other.args and self.kwargs == other.kwargs

    def __hash__(self):
        return hash((type(self), self.args, tuple(sorted(self.kwargs.items(), key=str))))

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join([repr(a) for a in self.args] + ['%s=%r' % kv for kv in self.kwargs.items()]))


class F(Node):
    pass


class G(F):
    pass


class H(Node):
    pass


def mk(t):
    if isinstance(t, list):
        return {'F': F, 'G': G, 'H': H}[t[0]]([mk(x) for x in t[1]], {k: mk(v) for k, v in t[2].items()})
    return t


def gen_tree(e, c, depth=0, names=None):
    names = [] if names is None else names
    k = c(6)
    if k == 0:
        return e
    if k in (1, 2) or not isinstance(e, Node):
        h = c(5)
        head = [None, type(e), F, (G, H), (str, int)][h]
        n = c(4)
        return P(head, name=None if n == 0 else 'x' + 'abc'[n - 1], conds=[] if c(6) else [CONDS[c(len(CONDS))]])
    args = list(e.args)
    mode = c(4)
    if mode in (1, 2):
        m, left = c(len(args) + 1), c(2)
        run, rest = (args[:m], args[m:]) if left else (args[len(args) - m:], args[:len(args) - m])
        ps = [gen_tree(a, c, depth + 1, names) for a in rest]
        sub = None
        head = [None, None, F, str, (int, str)][c(5)]
        if run and isinstance(run[0], Node) and c(3) == 0:
            sub = gen_tree(run[0], c, 5, names)
        if isinstance(sub, P) and no_multi(sub):
            q = P(sub.head, sub.args, sub.kwargs, None if c(3) == 0 else 'm' + 'ab'[c(2)], 3 if mode == 1 or not run else 2, sub.conds)
        else:
            q = P(head, name=None if c(3) == 0 else 'm' + 'ab'[c(2)], mode=3 if mode == 1 or not run else 2)
        ps = [q] + ps if left else ps + [q]
    else:
        ps = None if mode == 3 and c(2) else [gen_tree(a, c, depth + 1, names) for a in args]
    kw = {key: gen_tree(v, c, depth + 1, names) for key, v in e.kwargs.items() if c(3)} or None
    return P([type(e), type(e), None, F, H][c(5)], ps, kw, name=[None, None, 'na', 'nb'][c(4)])


def no_multi(p):
    return all(not isinstance(x, P) or (x.mode == 1 and no_multi(x)) for x in list(p.args or ()) + list((p.kwargs or {}).values()))


@PROP.part('trees', tree_case, quick=9000, rule='the pattern has named wildcards and is compared with two trees (or with un-instantiated expressions)')
def trees(case):
    a, b = mk(case['a']), mk(case['b'])
    c = Choose(case['c'])
    p = gen_tree(a, c)
    if not isinstance(p, P):
        p = P(None, name='x')
    if case['proto']:
        targets = [ProtoExpr(x.args, x.kwargs) for x in (a, b) if isinstance(x, Node)]
        if not targets or p.mode > 1:
            raise Discard('no structure')
        p = P(ProtoExpr, p.args, p.kwargs, None, 1, ())
        lp = pattern_head(*[x.lib(case['how']) if isinstance(x, P) else x for x in p.args or ()],
                          **{k: x.lib(case['how']) if isinstance(x, P) else x for k, x in (p.kwargs or {}).items()})
        if not p.args:
            p.args = None
    else:
        lp = p.lib(case['how'])
        if case['how'] == 2 and not p.args:
            pass
        targets = walk(a, [])[-6:] + walk(b, [])[-4:]
    hits = 0
    for t in targets:
        if compare(p, lp, t, 'the tree') is not None:
            hits += 1
    for t in (a, b):
        want = [s for s in walk(t, []) if ref_match(p, s, {})]
        got = lp.findall(t)
        ensure(len(got) == len(want) and all(x == y for x, y in zip(got, want)), 'findall of %s in %s gives %s instead of %s', lp, t, got, want)
    return {'nt': bool(p.names()) and len(targets) > 1, 'tags': ['hits %d' % min(hits, 3), 'proto' if case['proto'] else 'tree'], 'show': repr(lp)[:200]}


# ------------------------------------------------------------------ wildcard names
@PROP.part('names', lambda: st.tuples(st.text('ABab01', max_size=4), st.integers(0, 4)), quick=300, rule='a letter-led name followed by underscores')
def names(case):
    name, n = case
    s = name + '_' * n
    ok = n <= 3 and (name == '' or name[0].isalpha() or True)
    try:
        p = wc(s)
    except ValueError:
        ensure(not (ok and n <= 3), 'wc(%r) is refused', s)
        return {'nt': False, 'tags': ['refused'], 'show': s}
    ensure(n <= 3, 'wc(%r) is accepted', s)
    ensure(p.wc_name == (name or None) and p.mode == {0: 1, 1: 1, 2: 2, 3: 3}[n], 'wc(%r) has name %r and mode %r', s, p.wc_name, p.mode)
    ensure(p.wc_names == ({name} if name else set()), 'names')
    return {'nt': bool(name), 'tags': ['mode %d' % p.mode], 'show': s}
