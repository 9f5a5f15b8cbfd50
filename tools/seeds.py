"""The planted bugs"""
import __main__
bug = __main__.bug
A, T, R = __main__.A, __main__.T, __main__.R

bug('product-space-prefix', 'Q09', [(A + 'hilbert_space_algebra.py', "            return set(self.operands) < set(other.operands)", "            n = len(self.operands)\n            return (n < len(other.operands) and\n                    all(ls in other.operands[:n+1] for ls in self.operands))")],
    'a product of two spaces which are the first and the last factors of a product of four or more', 'the product is not recognized as a tensor factor', '''
from qnet import *
h = [LocalSpace(i) for i in range(4)]
assert h[0] * h[3] < h[0] * h[1] * h[2] * h[3]
''')

bug('connect-port-name', 'Q07', [(T + 'circuit_manipulation.py', "                ip = components[c2].PORTSIN.index(ip)", "                ip = components[c2].PORTSIN.index(ip) % components[c1].cdim")],
    'a named input port whose number is not below the number of channels of the component it is connected to', 'the connection goes to another port of the component', '''
from qnet import *
from qnet.algebra.library.circuit_components import Beamsplitter, PhaseCC
bs = Beamsplitter(label='bs')
ph = PhaseCC(label='ph')
c1 = connect([ph, bs], [((0, 'out'), (1, 'vac'))])
c2 = connect([ph, bs], [((0, 0), (1, 1))])
assert bs.PORTSIN.index('vac') == 1
assert c1 == c2, (c1, c2)
''')

bug('block-permutation-end', 'Q08', [('src/qnet/utils/permutations.py', "            if max(c) > current_block_end:\n                current_block_end = max(c)\n\n    res", "            if c[-1] > current_block_end:\n                current_block_end = c[-1]\n\n    res")],
    'two interleaved cycles in one block, where the second cycle reaches further than the first and does not end in its largest element', 'a valid permutation cannot be decomposed into blocks', '''
from qnet.utils.permutations import full_block_perm, permutation_to_block_permutations
p = (2, 4, 0, 1, 3)
assert list(permutation_to_block_permutations(p)) == [p]
''')

bug('sigma-jz-index', 'Q01', [(R, "                Jzjmcoeff(ls, localsigma.index_k, shift=True) * localsigma)),", "                Jzjmcoeff(ls, localsigma.index_j, shift=True) * localsigma)),")],
    'a transition operator between different spin states with Jz on its right', 'the eigenvalue of the wrong state is used', '''
from qnet import *
hs = SpinSpace('s', spin=1)
e = LocalSigma('+1', '0', hs=hs) * Jz(hs=hs)
assert e == ZeroOperator, e
''')

bug('phase-pseudo-adjoint', 'Q01', [('src/qnet/algebra/library/fock_operators.py', "        return Phase.create(-self.phase, hs=self.space)", "        return Phase.create(-self.phase.conjugate(), hs=self.space)")],
    'the pseudo-inverse of a phase operator with a complex phase', 'the pseudo-inverse is the adjoint, which is not the inverse', '''
from qnet import *
e = PseudoInverse.create(Phase(1+2j, hs=0))
assert e == Phase(-(1+2j), hs=0), e
''')
