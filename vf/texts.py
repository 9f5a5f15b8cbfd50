"""Texts for the evidence files and the manifest"""
RULES = {
    'Q01': 'a formula with at least four constructor nodes, compared with its naive matrix value after construction and after every '
           'applied transformation; distinct = distinct JSON case',
    'Q02': 'a formula with at least three (kets) or four (inner/outer products) constructor nodes, compared after construction and '
           'after every transformation; distinct = distinct JSON case',
}
ASSUMPTIONS = {'*': [
    'NumPy/SciPy linear algebra is correct to the stated tolerance',
    'symbols are interpreted by fixed generic random matrices/numbers: an identity that fails only on a null set of '
    'interpretations is not seen']}
TECHNIQUE = {
    'Q01': 'property-based testing: generated formulas, naive matrix evaluation as reference model, denotation of every rewritten form',
    'Q02': 'property-based testing: generated ket/bra formulas, naive vector evaluation as reference model',
}
NOTE = {'*': 'Generated-input search (Hypothesis, fixed seed, shrinking to a JSON replay case) against an explicit oracle; nothing is '
             'claimed beyond the cases generated. Sizes, ranges and truncations are in DESIGN.md.'}
NOT_APPLICABLE = {}
